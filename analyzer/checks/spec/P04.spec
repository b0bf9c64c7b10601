property P04
# the altitude of DF0/4/16/20 must decode
def ac = b20-32
def ach = gillhamok(0, b30, b32, b21, b23, b25, b27, b29, b31, b20, b22, b24)
def altok = ac == 0 || b26 == 1 || b28 == 1 || ach
entry modes/reader.ReadMessage(message[7])
  modes/messages.MessageDF0 when b1-5 == 0 && altok
  modes/messages.MessageDF4 when b1-5 == 4 && altok
  modes/messages.MessageDF5 when b1-5 == 5
  modes/messages.MessageDF11 when b1-5 == 11
  modes/messages.MessageDF16 when false
  modes/messages.MessageDF17 when false
  modes/messages.MessageDF18 when false
  modes/messages.MessageDF19 when false
  modes/messages.MessageDF20 when false
  modes/messages.MessageDF21 when false
  modes/messages.MessageDF24 when false
  error otherwise
entry modes/reader.ReadMessage(message[14])
  modes/messages.MessageDF0 when false
  modes/messages.MessageDF4 when false
  modes/messages.MessageDF5 when false
  modes/messages.MessageDF11 when false
  modes/messages.MessageDF16 when b1-5 == 16 && altok
  modes/messages.MessageDF17 when b1-5 == 17
  modes/messages.MessageDF18 when b1-5 == 18
  modes/messages.MessageDF19 when b1-5 == 19
  modes/messages.MessageDF20 when b1-5 == 20 && altok
  modes/messages.MessageDF21 when b1-5 == 21
  modes/messages.MessageDF24 when b1-5 >= 24
  error otherwise
layout modes/messages.MessageDF0
  GetDownLinkFormat() = 0
  GetName() = "Short air-air surveillance (ACAS)"
layout modes/messages.MessageDF4
  GetDownLinkFormat() = 4
  GetName() = "Surveillance, altitude reply"
layout modes/messages.MessageDF5
  GetDownLinkFormat() = 5
  GetName() = "Surveillance, identify reply"
layout modes/messages.MessageDF11
  GetDownLinkFormat() = 11
  GetName() = "All-call reply"
layout modes/messages.MessageDF16
  GetDownLinkFormat() = 16
  GetName() = "Long air-air surveillance (ACAS)"
layout modes/messages.MessageDF17
  GetDownLinkFormat() = 17
  GetName() = "Extended squitter"
layout modes/messages.MessageDF18
  GetDownLinkFormat() = 18
  GetName() = "Extended squitter/non transponder"
layout modes/messages.MessageDF19
  GetDownLinkFormat() = 19
  GetName() = "Military extended squitter"
layout modes/messages.MessageDF20
  GetDownLinkFormat() = 20
  GetName() = "Comm-B altitude reply"
layout modes/messages.MessageDF21
  GetDownLinkFormat() = 21
  GetName() = "Comm-B identify reply"
layout modes/messages.MessageDF24
  GetDownLinkFormat() = 24
  GetName() = "Comm-D (ELM)"

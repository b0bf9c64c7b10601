property P07
def a = [b25 b23 b21]
def b = [b31 b29 b27]
def c = [b24 b22 b20]
def d = [b32 b30 b28]
entry modes/reader.ReadMessage(message[7])
  modes/messages.MessageDF5 when b1-5 == 5
  others ignored
entry modes/reader.ReadMessage(message[14])
  modes/messages.MessageDF21 when b1-5 == 21
  others ignored
layout modes/fields.Identity
  Identity = digits(a, b, c, d)
  IsSpecialEmergency() = a == 7 && b == 7 && c == 0 && d == 0
  IsSpecialRadiocommunicationFailure() = a == 7 && b == 6 && c == 0 && d == 0
  IsSpecialUnlawfulInterference() = a == 7 && b == 5 && c == 0 && d == 0
  IsSpecialInstructionNotReceived() = a == 2 && b == 0 && c == 0 && d == 0

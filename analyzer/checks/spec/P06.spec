property P06
# C1 A1 C2 A2 C4 A4 M B1 Q B2 D2 B4 D4 in b20..b32; there is no D1
def ac = b20-32
def h = gillham(0, b30, b32, b21, b23, b25, b27, b29, b31, b20, b22, b24)
def hok = gillhamok(0, b30, b32, b21, b23, b25, b27, b29, b31, b20, b22, b24)
def n = [b20-25 b27 b29-32]
def alt = ac == 0 ? 0 : b26 == 1 ? 0 : b28 == 1 ? 25*n - 1000 : h
def method = ac == 0 ? 1 : b26 == 1 ? 2 : b28 == 1 ? 4 : 3
def ok = ac == 0 || b26 == 1 || b28 == 1 || hok
entry modes/reader.ReadMessage(message[7])
  modes/messages.MessageDF0 when b1-5 == 0 && ok
  modes/messages.MessageDF4 when b1-5 == 4 && ok
  others ignored
entry modes/reader.ReadMessage(message[14])
  modes/messages.MessageDF16 when b1-5 == 16 && ok
  modes/messages.MessageDF20 when b1-5 == 20 && ok
  others ignored
layout modes/messages.MessageDF0
  Altitude = alt
  AltitudeReportMethod = method
layout modes/messages.MessageDF4
  Altitude = alt
  AltitudeReportMethod = method
layout modes/messages.MessageDF16
  Altitude = alt
  AltitudeReportMethod = method
layout modes/messages.MessageDF20
  Altitude = alt
  AltitudeReportMethod = method

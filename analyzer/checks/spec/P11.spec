property P11
# 12 bit altitude: C1 A1 C2 A2 C4 A4 B1 Q B2 D2 B4 D4 in b9..b20
def hok = gillhamok(0, b18, b20, b10, b12, b14, b15, b17, b19, b9, b11, b13)
def h = gillham(0, b18, b20, b10, b12, b14, b15, b17, b19, b9, b11, b13)
def altok = b16 == 1 || hok
def alt = b16 == 1 ? 25*[b9-15 b17-20] - 1000 : h
def pos = b1-5 in (9-18,20-22)
def nopos = b21-56 == 0
entry bds/bds05.ReadAirbornePosition(data[7]!)
  bds/bds05.AirbornePosition when pos && altok
  error otherwise
entry adsb/reader.ReadADSBMessage(version, nicA, nicC, data[7]!)
  bds/bds05.AirbornePosition when (pos && altok && version <= 2) || (b1-5 == 0 && !nopos && altok)
  adsb/airborne_position.AirbornePositionType0 when b1-5 == 0 && !nopos && altok
  adsb/no_position_information.NoPositionInformation when b1-5 == 0 && nopos && altok
  others ignored
layout bds/bds05.AirbornePosition
  FormatTypeCode = b1-5
  SurveillanceStatus = b6-7
  SingleAntennaFlag = b8
  AltitudeSource = b1-5 >= 20 ? 1 : 0
  AltitudeReportMethod = b16 == 1 ? 1 : 0
  AltitudeInFeet = alt
  Time = b21
  CPRFormat = b22
  EncodedLatitude = b23-39
  EncodedLongitude = b40-56
layout adsb/airborne_position.AirbornePositionType0
  NavigationIntegrityCategory = 0
layout adsb/no_position_information.NoPositionInformation
  FormatTypeCode = 0
  NavigationIntegrityCategory = 0
  AltitudeBarometric = alt

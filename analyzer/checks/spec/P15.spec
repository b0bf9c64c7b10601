property P15
def sub = b6-8
def ok = b1-5 == 19 && sub in (1-4)
def unit = sub == 2 || sub == 4 ? 4 : 1
def top = sub == 2 || sub == 4 ? 4088 : 1023
def code(v, max) = v == 0 ? 0 : v == max ? 2 : 1
def speed(v) = v == 0 ? 0 : v == 1023 ? top : (v - 1) * unit
def sgn(s, v) = s == 1 ? 0 - v : v
entry bds/bds09.ReadAirborneVelocity(data[7]!)
  bds/bds09.AirborneVelocityGroundSpeedNormal when ok && sub == 1
  bds/bds09.AirborneVelocityGroundSpeedSupersonic when ok && sub == 2
  bds/bds09.AirborneVelocityAirSpeedNormal when ok && sub == 3
  bds/bds09.AirborneVelocityAirSpeedSupersonic when ok && sub == 4
  error otherwise
entry bds/bds09.ReadAirborneVelocityGroundSpeedNormal(data[7]!)
  bds/bds09.AirborneVelocityGroundSpeedNormal when ok && sub == 1
  error otherwise
entry bds/bds09.ReadAirborneVelocityGroundSpeedSupersonic(data[7]!)
  bds/bds09.AirborneVelocityGroundSpeedSupersonic when ok && sub == 2
  error otherwise
entry bds/bds09.ReadAirborneVelocityAirSpeedNormal(data[7]!)
  bds/bds09.AirborneVelocityAirSpeedNormal when ok && sub == 3
  error otherwise
entry bds/bds09.ReadAirborneVelocityAirSpeedSupersonic(data[7]!)
  bds/bds09.AirborneVelocityAirSpeedSupersonic when ok && sub == 4
  error otherwise
entry adsb/reader.ReadADSBMessage(version, nicA, nicC, data[7]!)
  bds/bds09.AirborneVelocityGroundSpeedNormal when ok && sub == 1
  bds/bds09.AirborneVelocityGroundSpeedSupersonic when ok && sub == 2
  bds/bds09.AirborneVelocityAirSpeedNormal when ok && sub == 3
  bds/bds09.AirborneVelocityAirSpeedSupersonic when ok && sub == 4
  others ignored
layout bds/bds09.AirborneVelocityGroundSpeedNormal
  FormatTypeCode = 19
  Subtype = sub
  GetSubtype() = sub
  IntentChange = b9
  IFRCapability = b10
  NavigationUncertaintyCategory = b11-13
  VerticalRateSource = b36
  VerticalRateStatus = code(b38-46, 511)
  VerticalRate = b38-46 == 0 ? 0 : sgn(b37, b38-46 == 511 ? 32640 : (b38-46 - 1) * 64)
  DifferenceAltitudeGNSSBaroStatus = code(b50-56, 127)
  DifferenceAltitudeGNSSBaro = b50-56 == 0 ? 0 : sgn(b49, b50-56 == 127 ? 3150 : (b50-56 - 1) * 25)
  DirectionEastWest = b14
  VelocityEWStatus = code(b15-24, 1023)
  VelocityEW = speed(b15-24)
  DirectionNorthSouth = b25
  VelocityNSStatus = code(b26-35, 1023)
  VelocityNS = speed(b26-35)
layout bds/bds09.AirborneVelocityAirSpeedNormal
  FormatTypeCode = 19
  Subtype = sub
  GetSubtype() = sub
  IntentChange = b9
  IFRCapability = b10
  NavigationUncertaintyCategory = b11-13
  VerticalRateSource = b36
  VerticalRateStatus = code(b38-46, 511)
  VerticalRate = b38-46 == 0 ? 0 : sgn(b37, b38-46 == 511 ? 32640 : (b38-46 - 1) * 64)
  HeightDifferenceFromBaroStatus = code(b50-56, 127)
  HeightDifferenceFromBaro = b50-56 == 0 ? 0 : sgn(b49, b50-56 == 127 ? 3150 : (b50-56 - 1) * 25)
  MagneticHeadingStatus = b14
  MagneticHeading = b15-24 * 360 / 1024
  AirspeedStatus = code(b26-35, 1023)
  Airspeed = speed(b26-35)
layout bds/bds09.AirborneVelocityGroundSpeedSupersonic
  FormatTypeCode = 19
  Subtype = sub
  GetSubtype() = sub
  IntentChange = b9
  IFRCapability = b10
  NavigationUncertaintyCategory = b11-13
  VerticalRateSource = b36
  VerticalRateStatus = code(b38-46, 511)
  VerticalRate = b38-46 == 0 ? 0 : sgn(b37, b38-46 == 511 ? 32640 : (b38-46 - 1) * 64)
  DifferenceAltitudeGNSSBaroStatus = code(b50-56, 127)
  DifferenceAltitudeGNSSBaro = b50-56 == 0 ? 0 : sgn(b49, b50-56 == 127 ? 3150 : (b50-56 - 1) * 25)
  DirectionEastWest = b14
  VelocityEWStatus = code(b15-24, 1023)
  VelocityEW = speed(b15-24)
  DirectionNorthSouth = b25
  VelocityNSStatus = code(b26-35, 1023)
  VelocityNS = speed(b26-35)
layout bds/bds09.AirborneVelocityAirSpeedSupersonic
  FormatTypeCode = 19
  Subtype = sub
  GetSubtype() = sub
  IntentChange = b9
  IFRCapability = b10
  NavigationUncertaintyCategory = b11-13
  VerticalRateSource = b36
  VerticalRateStatus = code(b38-46, 511)
  VerticalRate = b38-46 == 0 ? 0 : sgn(b37, b38-46 == 511 ? 32640 : (b38-46 - 1) * 64)
  HeightDifferenceFromBaroStatus = code(b50-56, 127)
  HeightDifferenceFromBaro = b50-56 == 0 ? 0 : sgn(b49, b50-56 == 127 ? 3150 : (b50-56 - 1) * 25)
  MagneticHeadingStatus = b14
  MagneticHeading = b15-24 * 360 / 1024
  AirspeedStatus = code(b26-35, 1023)
  Airspeed = speed(b26-35)

property P12
def mov = [b6-12]
def speed = mov <= 1 || mov > 124 ? 0 : \
  mov <= 8 ? mov * 0.125 - 0.125 : \
  mov <= 12 ? mov * 0.25 - 1.25 : \
  mov <= 38 ? mov * 0.5 - 4.5 : \
  mov <= 93 ? mov - 24 : \
  mov <= 108 ? mov * 2 - 118 : \
  mov <= 123 ? mov * 5 - 445 : 175
entry bds/bds06.ReadSurfacePosition(data[7]!)
  bds/bds06.SurfacePosition when b1-5 in (5-8)
  error otherwise
entry adsb/reader.ReadADSBMessage(version, nicA, nicC, data[7]!)
  bds/bds06.SurfacePosition when b1-5 in (5-8) && version <= 2
  others ignored
layout bds/bds06.SurfacePosition
  FormatTypeCode = b1-5
  MovementStatus = mov
  MovementSpeed = speed
  GroundTrackStatus = b13
  GroundTrack = b14-20 * 360 / 128
  Time = b21
  CPRFormat = b22
  EncodedLatitude = b23-39
  EncodedLongitude = b40-56

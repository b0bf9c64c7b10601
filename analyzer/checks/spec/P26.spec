property P26
entry bds/bds50.ReadTrackAndTurnReport(data[7]!)
  bds/bds50.TrackAndTurnReport when true
  error otherwise
entry bds/bds60.ReadHeadingAndSpeedReport(data[7]!)
  bds/bds60.HeadingAndTrackReport when true
  error otherwise
layout bds/bds50.TrackAndTurnReport
  RollAngleStatus = b1
  RollAngle = s(b2-11) * 45 / 256
  TrueTrackAngleStatus = b12
  TrueTrackAngle = s(b13-23) * 90 / 512
  GroundSpeedStatus = b24
  GroundSpeed = b25-34 * 2
  TrackAngleRateStatus = b35
  TrackAngleRate = s(b36-45) * 8 / 256
  TrueAirSpeedStatus = b46
  TrueAirSpeed = b47-56 * 2
layout bds/bds60.HeadingAndTrackReport
  MagneticHeadingStatus = b1
  MagneticHeading = s(b2-12) * 90 / 512
  IndicatedAirSpeedStatus = b13
  IndicatedAirSpeed = b14-23
  MachStatus = b24
  Mach = b25-34 * 2.048 / 512
  BarometricAltitudeRateStatus = b35
  BarometricAltitudeRate = s(b36-45) * 32
  InitialVerticalVelocityStatus = b46
  InitialVerticalVelocity = s(b47-56) * 32

property P22
def ok = b30-56 == 0
entry bds/bds17.ReadCommonUsageGICBCapabilityReport(data[7]!)
  bds/bds17.CommonUsageGICBCapabilityReport when ok
  error otherwise
layout bds/bds17.CommonUsageGICBCapabilityReport
  ExtendedSquitterAirbornePosition = b1
  ExtendedSquitterSurfacePosition = b2
  ExtendedSquitterStatus = b3
  ExtendedSquitterIdentificationAndCategory = b4
  ExtendedSquitterAirborneVelocityInformation = b5
  ExtendedSquitterEventDrivenInformation = b6
  AircraftIdentification = b7
  AircraftRegistrationNumber = b8
  SelectedVerticalIntention = b9
  NextWaypointIdentifier = b10
  NextWaypointPosition = b11
  NextWaypointInformation = b12
  MeteorologicalRoutineReport = b13
  MeteorologicalHazardReport = b14
  VHFChannelReport = b15
  TrackAndTurnReport = b16
  PositionCoarse = b17
  PositionFine = b18
  AirReferencedStateVector = b19
  Waypoint1 = b20
  Waypoint2 = b21
  Waypoint3 = b22
  QuasiStaticParameterMonitoring = b23
  HeadingAndSpeedReport = b24
  MilitaryApplications = b29

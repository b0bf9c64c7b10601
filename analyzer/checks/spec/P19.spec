property P19
def ftc = b1-5 == 31
def v = b41-43
def ok0 = ftc && v == 0 && b6-8 == 0 && b41-56 == 0
def okA1 = ftc && v == 1 && b6-8 == 0 && b9-10 == 0 && b13-14 == 0 && b25-26 == 0 && b49-50 == 0 && b55-56 == 0
def okS1 = ftc && v == 1 && b6-8 == 1 && b9-10 == 0 && b13-14 == 0 && b25-26 == 0 && b49-50 == 0 && b55-56 == 0
def okA2 = ftc && v == 2 && b6-8 == 0 && b9-10 == 0 && b25-26 == 0 && b56 == 0
def okS2 = ftc && v == 2 && b6-8 == 1 && b9-10 == 0 && b25-26 == 0 && b56 == 0
entry bds/bds65.ReadAircraftOperationalStatus(data[7]!)
  bds/bds65.AircraftOperationalStatusADSB0 when ok0
  bds/bds65.AircraftOperationalStatusAirborneADSB1 when okA1
  bds/bds65.AircraftOperationalStatusSurfaceADSB1 when okS1
  bds/bds65.AircraftOperationalStatusAirborneADSB2 when okA2
  bds/bds65.AircraftOperationalStatusSurfaceADSB2 when okS2
  error otherwise
entry bds/bds65.ReadAircraftOperationalStatusADSB0(data[7]!)
  bds/bds65.AircraftOperationalStatusADSB0 when ok0
  error otherwise
entry bds/bds65.ReadAircraftOperationalStatusAirborneADSB1(data[7]!)
  bds/bds65.AircraftOperationalStatusAirborneADSB1 when okA1
  error otherwise
entry bds/bds65.ReadAircraftOperationalStatusSurfaceADSB1(data[7]!)
  bds/bds65.AircraftOperationalStatusSurfaceADSB1 when okS1
  error otherwise
entry bds/bds65.ReadAircraftOperationalStatusAirborneADSB2(data[7]!)
  bds/bds65.AircraftOperationalStatusAirborneADSB2 when okA2
  error otherwise
entry bds/bds65.ReadAircraftOperationalStatusSurfaceADSB2(data[7]!)
  bds/bds65.AircraftOperationalStatusSurfaceADSB2 when okS2
  error otherwise
entry adsb/reader.ReadADSBMessage(version, nicA, nicC, data[7]!)
  bds/bds65.AircraftOperationalStatusADSB0 when ok0
  bds/bds65.AircraftOperationalStatusAirborneADSB1 when okA1
  bds/bds65.AircraftOperationalStatusSurfaceADSB1 when okS1
  bds/bds65.AircraftOperationalStatusAirborneADSB2 when okA2
  bds/bds65.AircraftOperationalStatusSurfaceADSB2 when okS2
  others ignored
layout bds/bds65.AircraftOperationalStatusADSB0
  FormatTypeCode = 31
  Subtype = 0
  EnRouteOperationalCapabilities = b9-12
  TerminalAreaOperationalCapabilities = b13-16
  ApproachLandingOperationalCapabilities = b17-20
  SurfaceOperationalCapabilities = b21-24
  EnRouteOperationalCapabilityStatus = b25-28
  TerminalAreaOperationalCapabilityStatus = b29-32
  ApproachLandingOperationalCapabilityStatus = b33-36
  SurfaceOperationalCapabilityStatus = b37-40
layout bds/bds65.AircraftOperationalStatusAirborneADSB1
  FormatTypeCode = 31
  Subtype = 0
  AirborneCapabilityClass.NotACASStatus = b11
  AirborneCapabilityClass.CockpitDisplayOfTrafficInformationStatus = b12
  AirborneCapabilityClass.AirReferencedVelocityReportCapability = b15
  AirborneCapabilityClass.TargetStateReportCapability = b16
  AirborneCapabilityClass.TargetChangeReportCapability = b17-18
  OperationalMode.ACASResolutionAdvisoryActive = b27
  OperationalMode.IdentSwitchActive = b28
  OperationalMode.ReceivingATCServices = b29
  VersionNumber = b41-43
  NICSupplement = b44
  NavigationalAccuracyCategoryPosition = b45-48
  SurveillanceIntegrityLevel = b51-52
  NICBaro = b53
  HorizontalReferenceDirection = b54
layout bds/bds65.AircraftOperationalStatusSurfaceADSB1
  FormatTypeCode = 31
  Subtype = 1
  SurfaceCapabilityClass.PositionOffsetApplied = b11
  SurfaceCapabilityClass.CockpitDisplayOfTrafficInformationStatus = b12
  SurfaceCapabilityClass.B2Low = b15
  LengthAndWidth = b21-24
  OperationalMode.ACASResolutionAdvisoryActive = b27
  OperationalMode.IdentSwitchActive = b28
  OperationalMode.ReceivingATCServices = b29
  VersionNumber = b41-43
  NICSupplement = b44
  NavigationalAccuracyCategoryPosition = b45-48
  SurveillanceIntegrityLevel = b51-52
  TrackAngleHeading = b53
  HorizontalReferenceDirection = b54
layout bds/bds65.AircraftOperationalStatusAirborneADSB2
  FormatTypeCode = 31
  Subtype = 0
  AirborneCapabilityClass.ACASOperational = b11
  AirborneCapabilityClass.ExtendedSquitterIn = b12
  AirborneCapabilityClass.AirReferencedVelocityReportCapability = b15
  AirborneCapabilityClass.TargetStateReportCapability = b16
  AirborneCapabilityClass.TargetChangeReportCapability = b17-18
  AirborneCapabilityClass.UniversalAccessTransceiverCapability = b19
  OperationalMode.ACASResolutionAdvisoryActive = b27
  OperationalMode.IdentSwitchActive = b28
  OperationalMode.SingleAntennaFlag = b30
  OperationalMode.SystemDesignAssurance = b31-32
  VersionNumber = b41-43
  NICSupplementA = b44
  NavigationalAccuracyCategoryPosition = b45-48
  GeometricVerticalAccuracy = b49-50
  SourceIntegrityLevel = b51-52
  NICBaro = b53
  HorizontalReferenceDirection = b54
  SourceIntegrityLevelSupplement = b55
layout bds/bds65.AircraftOperationalStatusSurfaceADSB2
  FormatTypeCode = 31
  Subtype = 1
  SurfaceCapabilityClass.ExtendedSquitterIn = b12
  SurfaceCapabilityClass.B2Low = b15
  SurfaceCapabilityClass.UniversalAccessTransceiverCapability = b16
  SurfaceCapabilityClass.NavigationAccuracyCategoryVelocity = b17-19
  SurfaceCapabilityClass.NICSupplementC = b20
  LengthAndWidth = b21-24
  OperationalMode.ACASResolutionAdvisoryActive = b27
  OperationalMode.IdentSwitchActive = b28
  OperationalMode.SingleAntennaFlag = b30
  OperationalMode.SystemDesignAssurance = b31-32
  OperationalMode.GPSAntenna.GPSAntennaLateral = b33-35
  OperationalMode.GPSAntenna.GPSAntennaLongitudinal = b36-40
  VersionNumber = b41-43
  NICSupplementA = b44
  NavigationalAccuracyCategoryPosition = b45-48
  SourceIntegrityLevel = b51-52
  TrackAngleHeading = b53
  HorizontalReferenceDirection = b54
  SourceIntegrityLevelSupplement = b55

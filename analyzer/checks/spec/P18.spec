property P18
def ok0 = b1-5 == 29 && b6-7 == 0 && b47-51 == 0
def ok1 = b1-5 == 29 && b6-7 == 1
def alt = b16-25
entry bds/bds62.ReadTargetStateAndStatus(data[7]!)
  bds/bds62.TargetStateAndStatus0 when ok0
  bds/bds62.TargetStateAndStatus1 when ok1
  error otherwise
entry bds/bds62.ReadTargetStateAndStatus0(data[7]!)
  bds/bds62.TargetStateAndStatus0 when ok0
  error otherwise
entry bds/bds62.ReadTargetStateAndStatus1(data[7]!)
  bds/bds62.TargetStateAndStatus1 when ok1
  error otherwise
entry adsb/reader.ReadADSBMessage(version, nicA, nicC, data[7]!)
  bds/bds62.TargetStateAndStatus0 when ok0
  bds/bds62.TargetStateAndStatus1 when ok1
  others ignored
layout bds/bds62.TargetStateAndStatus0
  FormatTypeCode = 29
  Subtype = 0
  GetSubtype() = 0
  VerticalDataAvailableSourceIndicator = b8-9
  TargetAltitudeType = b10
  TargetAltitudeCapability = b12-13
  VerticalModeIndicator = b14-15
  TargetAltitudeStatus = alt > 1010 ? 2 : 1
  TargetAltitude = alt > 1010 ? 0 : alt * 100 - 1000
  HorizontalDataAvailableSourceIndicator = b26-27
  TargetHeadingTrackAngleStatus = b28-36 > 359 ? 2 : 1
  TargetHeadingTrackAngle = b28-36 > 359 ? 0 : b28-36
  TargetHeadingTrackIndicator = b37
  HorizontalModeIndicator = b38-39
  NavigationalAccuracyCategoryPosition = b40-43
  NICBaro = b44
  SurveillanceIntegrityLevel = b45-46
  CapabilityModeCode = b52-53
  EmergencyPriorityStatus = b54-56
layout bds/bds62.TargetStateAndStatus1
  FormatTypeCode = 29
  Subtype = 1
  GetSubtype() = 1
  SourceIntegrityLevelSupplement = b8
  SelectedAltitudeType = b9
  SelectedAltitudeStatus = b10-20 != 0
  SelectedAltitude = b10-20 == 0 ? 0 : (b10-20 - 1) * 32
  BarometricPressureSettingStatus = b21-29 != 0
  BarometricPressureSetting = b21-29 == 0 ? 0 : b21-29 * 0.8 + 799.2
  SelectedHeadingStatus = b30
  SelectedHeading = s(b31-39) * 180 / 256
  NavigationalAccuracyCategoryPosition = b40-43
  NICBaro = b44
  SourceIntegrityLevel = b45-46
  StatusMCPFCUBits = b47
  AutopilotEngaged = b48
  VNAVModeEngaged = b49
  AltitudeHoldModeEngaged = b50
  ApproachModeEngaged = b52
  TCASACASOperational = b53
  LNAVModeEngaged = b54

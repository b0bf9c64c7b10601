property P23
def ok = b40 == 0 && b41-47 == 0 && b52-53 == 0
entry bds/bds40.ReadSelectedVerticalIntention(data[7]!)
  bds/bds40.SelectedVerticalIntention when ok
  error otherwise
layout bds/bds40.SelectedVerticalIntention
  MCPFCUSelectedAltitudeAvailable = b1
  MCPFCUSelectedAltitude = b2-13 * 16
  FMSSelectedAltitudeAvailable = b14
  FMSSelectedAltitude = b15-26 * 16
  BarometricPressureSettingAvailable = b27
  BarometricPressureSetting = b28-39 * 0.1 + 800
  StatusOfModeBits = b48
  VNAVMode = b49
  AltitudeHoldMode = b50
  ApproachMode = b51
  StatusOfTargetAltitudeSource = b54
  TargetAltitudeSource = b55-56

property P21
def ok = b1-8 == 0x10 && b10-14 == 0
entry bds/bds10.ReadDataLinkCapabilityReport(data[7]!)
  bds/bds10.DataLinkCapabilityReport when ok
  error otherwise
layout bds/bds10.DataLinkCapabilityReport
  ContinuationFlag = b9
  OverlayCommandCapability = b15
  ACASStatus = b16
  ModeSSubnetworkVersion = b17-23
  TransponderEnhancedProtocolIndicator = b24
  ModeSSpecificServicesCapability = b25
  UplinkELMThroughputCapability = b26-28
  DownlinkELMThroughputCapability = b29-32
  AircraftIdentificationCapability = b33
  SquitterCapabilitySubfield = b34
  SurveillanceIdentifierCode = b35
  CommonUsageGICBCapability = b36
  ACASHybridSurveillanceCapability = b37
  ACASGenerationCapability = b38
  ACASApplicableDocument = b39-40
  DTESubAddressStatuses = b41-56

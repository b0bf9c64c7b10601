property P17
def ok0 = b1-5 == 28 && b6-8 == 0 && b12-56 == 0
def ok1 = b1-5 == 28 && b6-8 == 1 && b25-56 == 0
entry bds/bds61.ReadAircraftStatus(data[7]!)
  bds/bds61.AircraftStatusNoInformation when ok0
  bds/bds61.AircraftStatusEmergency when ok1
  bds/bds61.AircraftStatusACAS when P20_ok61
  error otherwise
entry bds/bds61.ReadAircraftStatusNoInformation(data[7]!)
  bds/bds61.AircraftStatusNoInformation when ok0
  error otherwise
entry bds/bds61.ReadAircraftStatusEmergency(data[7]!)
  bds/bds61.AircraftStatusEmergency when ok1
  error otherwise
entry adsb/reader.ReadADSBMessage(version, nicA, nicC, data[7]!)
  bds/bds61.AircraftStatusNoInformation when ok0
  bds/bds61.AircraftStatusEmergency when ok1
  bds/bds61.AircraftStatusACAS when P20_ok61
  others ignored
layout bds/bds61.AircraftStatusNoInformation
  FormatTypeCode = 28
  Subtype = 0
  GetSubtype() = 0
  EmergencyPriorityStatus = b9-11
layout bds/bds61.AircraftStatusEmergency
  FormatTypeCode = 28
  Subtype = 1
  GetSubtype() = 1
  EmergencyPriorityStatus = b9-11
  ModeACode = b12-24
layout bds/bds61.AircraftStatusACAS
  FormatTypeCode = 28
  Subtype = 2
  GetSubtype() = 2

property P29
entry bds/bds07.ReadStatus(data[7])
  others ignored
entry bds/bds08.ReadAircraftIdentificationAndCategory(data[7])
  others ignored
entry bds/bds10.ReadDataLinkCapabilityReport(data[7])
  others ignored
entry bds/bds17.ReadCommonUsageGICBCapabilityReport(data[7])
  others ignored
entry bds/bds20.ReadAircraftIdentification(data[7])
  others ignored
entry bds/bds30.ReadACASResolutionAdvisory(data[7])
  others ignored
entry bds/bds40.ReadSelectedVerticalIntention(data[7])
  others ignored
entry bds/bds44.ReadMeteorologicalRoutineAirReportV0(data[7])
  others ignored
entry bds/bds44.ReadMeteorologicalRoutineAirReportV1(data[7])
  others ignored
entry bds/bds44.ReadMeteorologicalRoutineAirReportV2(data[7])
  others ignored
entry bds/bds45.ReadMeteorologicalHazardReportV0(data[7])
  others ignored
entry bds/bds45.ReadMeteorologicalHazardReportV1(data[7])
  others ignored
entry bds/bds50.ReadTrackAndTurnReport(data[7])
  others ignored
entry bds/bds60.ReadHeadingAndSpeedReport(data[7])
  others ignored
entry bds/bds00.ReadNoMessageAvailable(data[7])
  others ignored
entry adsb/reader.ReadADSBMessage(version, nicA, nicC, data[7])
  others ignored
layout bds/bds00.NoMessageAvailable
  GetRegister().GetId() = "BDS 0,0"
  GetRegister().GetDescription() = "No message waiting for transmission"
  GetRegister().ToString() = "BDS 0,0 - No message waiting for transmission"
layout bds/bds05.AirbornePosition
  GetRegister().GetId() = "BDS 0,5"
  GetRegister().GetDescription() = "Extended squitter airborne position"
  GetRegister().ToString() = "BDS 0,5 - Extended squitter airborne position"
layout bds/bds06.SurfacePosition
  GetRegister().GetId() = "BDS 0,6"
  GetRegister().GetDescription() = "Extended squitter surface position"
  GetRegister().ToString() = "BDS 0,6 - Extended squitter surface position"
layout bds/bds07.Status
  GetRegister().GetId() = "BDS 0,7"
  GetRegister().GetDescription() = " Extended squitter status"
  GetRegister().ToString() = "BDS 0,7 -  Extended squitter status"
layout bds/bds08.AircraftIdentificationAndCategory
  GetRegister().GetId() = "BDS 0,8"
  GetRegister().GetDescription() = "Extended squitter aircraft identification and category"
  GetRegister().ToString() = "BDS 0,8 - Extended squitter aircraft identification and category"
layout bds/bds09.AirborneVelocityGroundSpeedNormal
  GetRegister().GetId() = "BDS 0,9"
  GetRegister().GetDescription() = "Extended squitter airborne velocity"
  GetRegister().ToString() = "BDS 0,9 - Extended squitter airborne velocity"
layout bds/bds09.AirborneVelocityGroundSpeedSupersonic
  GetRegister().GetId() = "BDS 0,9"
  GetRegister().GetDescription() = "Extended squitter airborne velocity"
  GetRegister().ToString() = "BDS 0,9 - Extended squitter airborne velocity"
layout bds/bds09.AirborneVelocityAirSpeedNormal
  GetRegister().GetId() = "BDS 0,9"
  GetRegister().GetDescription() = "Extended squitter airborne velocity"
  GetRegister().ToString() = "BDS 0,9 - Extended squitter airborne velocity"
layout bds/bds09.AirborneVelocityAirSpeedSupersonic
  GetRegister().GetId() = "BDS 0,9"
  GetRegister().GetDescription() = "Extended squitter airborne velocity"
  GetRegister().ToString() = "BDS 0,9 - Extended squitter airborne velocity"
layout bds/bds10.DataLinkCapabilityReport
  GetRegister().GetId() = "BDS 1,0"
  GetRegister().GetDescription() = "Data link capability report"
  GetRegister().ToString() = "BDS 1,0 - Data link capability report"
layout bds/bds17.CommonUsageGICBCapabilityReport
  GetRegister().GetId() = "BDS 1,7"
  GetRegister().GetDescription() = "Common usage GICB capability report"
  GetRegister().ToString() = "BDS 1,7 - Common usage GICB capability report"
layout bds/bds20.AircraftIdentification
  GetRegister().GetId() = "BDS 2,0"
  GetRegister().GetDescription() = "Aircraft identification"
  GetRegister().ToString() = "BDS 2,0 - Aircraft identification"
layout bds/bds30.ACASResolutionAdvisory
  GetRegister().GetId() = "BDS 3,0"
  GetRegister().GetDescription() = "ACAS active resolution advisory"
  GetRegister().ToString() = "BDS 3,0 - ACAS active resolution advisory"
layout bds/bds40.SelectedVerticalIntention
  GetRegister().GetId() = "BDS 4,0"
  GetRegister().GetDescription() = "Selected vertical intention"
  GetRegister().ToString() = "BDS 4,0 - Selected vertical intention"
layout bds/bds44.MeteorologicalRoutineAirReportV0
  GetRegister().GetId() = "BDS 4,4"
  GetRegister().GetDescription() = "Meteorological routine air report"
  GetRegister().ToString() = "BDS 4,4 - Meteorological routine air report"
layout bds/bds44.MeteorologicalRoutineAirReportV1
  GetRegister().GetId() = "BDS 4,4"
  GetRegister().GetDescription() = "Meteorological routine air report"
  GetRegister().ToString() = "BDS 4,4 - Meteorological routine air report"
layout bds/bds44.MeteorologicalRoutineAirReportV2
  GetRegister().GetId() = "BDS 4,4"
  GetRegister().GetDescription() = "Meteorological routine air report"
  GetRegister().ToString() = "BDS 4,4 - Meteorological routine air report"
layout bds/bds45.MeteorologicalHazardReportV0
  GetRegister().GetId() = "BDS 4,5"
  GetRegister().GetDescription() = "Meteorological hazard report"
  GetRegister().ToString() = "BDS 4,5 - Meteorological hazard report"
layout bds/bds45.MeteorologicalHazardReportV1
  GetRegister().GetId() = "BDS 4,5"
  GetRegister().GetDescription() = "Meteorological hazard report"
  GetRegister().ToString() = "BDS 4,5 - Meteorological hazard report"
layout bds/bds50.TrackAndTurnReport
  GetRegister().GetId() = "BDS 5,0"
  GetRegister().GetDescription() = "Track and turn report"
  GetRegister().ToString() = "BDS 5,0 - Track and turn report"
layout bds/bds60.HeadingAndTrackReport
  GetRegister().GetId() = "BDS 6,0"
  GetRegister().GetDescription() = "Heading and speed report"
  GetRegister().ToString() = "BDS 6,0 - Heading and speed report"
layout bds/bds61.AircraftStatusNoInformation
  GetRegister().GetId() = "BDS 6,1"
  GetRegister().GetDescription() = "Extended squitter emergency/priority status"
  GetRegister().ToString() = "BDS 6,1 - Extended squitter emergency/priority status"
layout bds/bds61.AircraftStatusEmergency
  GetRegister().GetId() = "BDS 6,1"
  GetRegister().GetDescription() = "Extended squitter emergency/priority status"
  GetRegister().ToString() = "BDS 6,1 - Extended squitter emergency/priority status"
layout bds/bds61.AircraftStatusACAS
  GetRegister().GetId() = "BDS 6,1"
  GetRegister().GetDescription() = "Extended squitter emergency/priority status"
  GetRegister().ToString() = "BDS 6,1 - Extended squitter emergency/priority status"
layout bds/bds62.TargetStateAndStatus0
  GetRegister().GetId() = "BDS 6,2"
  GetRegister().GetDescription() = "Target state and status information"
  GetRegister().ToString() = "BDS 6,2 - Target state and status information"
layout bds/bds62.TargetStateAndStatus1
  GetRegister().GetId() = "BDS 6,2"
  GetRegister().GetDescription() = "Target state and status information"
  GetRegister().ToString() = "BDS 6,2 - Target state and status information"
layout bds/bds65.AircraftOperationalStatusADSB0
  GetRegister().GetId() = "BDS 6,5"
  GetRegister().GetDescription() = "Extended squitter aircraft operational status"
  GetRegister().ToString() = "BDS 6,5 - Extended squitter aircraft operational status"
layout bds/bds65.AircraftOperationalStatusAirborneADSB1
  GetRegister().GetId() = "BDS 6,5"
  GetRegister().GetDescription() = "Extended squitter aircraft operational status"
  GetRegister().ToString() = "BDS 6,5 - Extended squitter aircraft operational status"
layout bds/bds65.AircraftOperationalStatusSurfaceADSB1
  GetRegister().GetId() = "BDS 6,5"
  GetRegister().GetDescription() = "Extended squitter aircraft operational status"
  GetRegister().ToString() = "BDS 6,5 - Extended squitter aircraft operational status"
layout bds/bds65.AircraftOperationalStatusAirborneADSB2
  GetRegister().GetId() = "BDS 6,5"
  GetRegister().GetDescription() = "Extended squitter aircraft operational status"
  GetRegister().ToString() = "BDS 6,5 - Extended squitter aircraft operational status"
layout bds/bds65.AircraftOperationalStatusSurfaceADSB2
  GetRegister().GetId() = "BDS 6,5"
  GetRegister().GetDescription() = "Extended squitter aircraft operational status"
  GetRegister().ToString() = "BDS 6,5 - Extended squitter aircraft operational status"
layout adsb/no_position_information.NoPositionInformation
  GetADSBVersion() = version
layout adsb/airborne_position.AirbornePositionType0
  GetADSBVersion() = version
layout adsb/aircraft_identification_and_category.AircraftIdentificationAndCategory
  GetADSBVersion() = version
layout adsb/surface_position.SurfacePositionV0
  GetADSBVersion() = 0
layout adsb/surface_position.SurfacePositionV1
  GetADSBVersion() = 1
layout adsb/surface_position.SurfacePositionV2
  GetADSBVersion() = 2
layout adsb/airborne_position.AirbornePositionV0
  GetADSBVersion() = 0
layout adsb/airborne_position.AirbornePositionV1
  GetADSBVersion() = 1
layout adsb/airborne_position.AirbornePositionV2
  GetADSBVersion() = 2
layout adsb/airborne_velocity.AirborneVelocity
  GetADSBVersion() = version
layout adsb/aircraft_status.AircraftStatus
  GetADSBVersion() = version
layout adsb/target_state_and_status.TargetStateAndStatus
  GetADSBVersion() = version
layout adsb/aircraft_operational_status.AircraftOperationalStatus
  GetADSBVersion() = P10_v65

property P27
def pair(s, v) = s == 1 || v == 0
entry bds/bds07.ReadStatus(data[7])
  others ignored
entry bds/bds08.ReadAircraftIdentificationAndCategory(data[7])
  others ignored
entry bds/bds10.ReadDataLinkCapabilityReport(data[7])
  others ignored
entry bds/bds17.ReadCommonUsageGICBCapabilityReport(data[7])
  others ignored
entry bds/bds20.ReadAircraftIdentification(data[7])
  others ignored
entry bds/bds30.ReadACASResolutionAdvisory(data[7])
  others ignored
entry bds/bds40.ReadSelectedVerticalIntention(data[7])
  others ignored
entry bds/bds44.ReadMeteorologicalRoutineAirReportV0(data[7])
  others ignored
entry bds/bds44.ReadMeteorologicalRoutineAirReportV1(data[7])
  others ignored
entry bds/bds44.ReadMeteorologicalRoutineAirReportV2(data[7])
  others ignored
entry bds/bds45.ReadMeteorologicalHazardReportV0(data[7])
  others ignored
entry bds/bds45.ReadMeteorologicalHazardReportV1(data[7])
  others ignored
entry bds/bds50.ReadTrackAndTurnReport(data[7])
  others ignored
entry bds/bds60.ReadHeadingAndSpeedReport(data[7])
  others ignored
entry bds/bds00.ReadNoMessageAvailable(data[7])
  others ignored
entry adsb/reader.ReadADSBMessage(version, nicA, nicC, data[7])
  others ignored
layout bds/bds00.NoMessageAvailable
  coherent = true
layout bds/bds07.Status
  coherent = b1-2 != 3
layout bds/bds08.AircraftIdentificationAndCategory
  coherent = chars6ok(9) && (b1-5 == 4 || b1-5 == 3 || (b1-5 == 2 && b6-8 <= 3))
layout bds/bds10.DataLinkCapabilityReport
  coherent = (b16 == 0 ? b37 == 0 && b38 == 0 && b39-40 == 0 : b39-40 <= 2) && b17-23 <= 5 && b26-28 <= 6 && b29-32 <= 6
layout bds/bds17.CommonUsageGICBCapabilityReport
  coherent = true
layout bds/bds20.AircraftIdentification
  coherent = chars6ok(9)
layout bds/bds30.ACASResolutionAdvisory
  coherent = true
layout bds/bds40.SelectedVerticalIntention
  coherent = (b1 == 1 || b14 == 1 || b27 == 1) && pair(b1, b2-13) && pair(b14, b15-26) && pair(b27, b28-39)
layout bds/bds44.MeteorologicalRoutineAirReportV0
  coherent = (b5 == 1 || b35 == 1 || b47 == 1 || b50 == 1) && b1-4 < 5 && pair(b5, b6-14) && pair(b5, b15-23) && \
    pair(b35, b36-46) && pair(b47, b48-49) && pair(b50, b51-56) && b6-14 <= 250 && P24_tempV0 >= -80 && P24_tempV0 <= 60
layout bds/bds44.MeteorologicalRoutineAirReportV1
  coherent = (b5 == 1 || b15 == 1 || b24 == 1 || b36 == 1 || b49 == 1) && pair(b5, b6-14) && pair(b15, b16-23) && \
    pair(b24, b25-35) && pair(b36, b37-47) && pair(b49, b50-56) && b6-14 <= 250 && P24_temp >= -80 && P24_temp <= 60
layout bds/bds44.MeteorologicalRoutineAirReportV2
  coherent = b1-4 < 5 && (b5 == 1 || b15 == 1 || b24 == 1 || b36 == 1 || b49 == 1) && pair(b5, b6-14) && pair(b15, b16-23) && \
    pair(b24, b25-35) && pair(b36, b37-47) && pair(b49, b50-56) && b6-14 <= 250 && P24_temp >= -80 && P24_temp <= 60
layout bds/bds45.MeteorologicalHazardReportV0
  coherent = (b1 == 1 || b4 == 1 || b7 == 1 || b10 == 1 || b13 == 1 || b16 == 1 || b27 == 1 || b39 == 1) && \
    pair(b1, b2-3) && pair(b4, b5-6) && pair(b7, b8-9) && pair(b10, b11-12) && pair(b13, b14-15) && pair(b16, b17-26) && \
    pair(b27, b28-38) && pair(b39, b40-51) && P25_tempV0 >= -80 && P25_tempV0 <= 60
layout bds/bds45.MeteorologicalHazardReportV1
  coherent = (b1 == 1 || b4 == 1 || b7 == 1 || b10 == 1 || b13 == 1 || b25 == 1 || b38 == 1) && \
    pair(b1, b2-3) && pair(b4, b5-6) && pair(b7, b8-9) && pair(b10, b11-12) && \
    pair(b25, b26-37) && pair(b38, b39-54) && (b13 == 0 || (P25_tempV1 >= -80 && P25_tempV1 <= 60))
layout bds/bds50.TrackAndTurnReport
  coherent = (b1 == 1 || b12 == 1 || b24 == 1 || b35 == 1 || b46 == 1) && pair(b1, b2-11) && pair(b12, b13-23) && \
    pair(b24, b25-34) && pair(b35, b36-45) && pair(b46, b47-56) && s(b2-11) * 45 / 256 <= 50 && s(b2-11) * 45 / 256 >= -50 && \
    b25-34 * 2 <= 600 && b47-56 * 2 <= 500 && b25-34 * 2 - b47-56 * 2 <= 200 && b25-34 * 2 - b47-56 * 2 >= -200
layout bds/bds60.HeadingAndTrackReport
  coherent = (b1 == 1 || b13 == 1 || b24 == 1 || b35 == 1 || b46 == 1) && pair(b1, b2-12) && pair(b13, b14-23) && \
    pair(b24, b25-34) && pair(b35, b36-45) && pair(b46, b47-56) && b14-23 <= 500 && b25-34 * 2.048 / 512 <= 1.0 && \
    s(b36-45) * 32 <= 6000 && s(b36-45) * 32 >= -6000 && s(b47-56) * 32 <= 6000 && s(b47-56) * 32 >= -6000
layout bds/bds61.AircraftStatusNoInformation
  coherent = b9-11 == 0
layout bds/bds61.AircraftStatusEmergency
  coherent = b9-11 != 7
layout bds/bds61.AircraftStatusACAS
  coherent = true
layout bds/bds62.TargetStateAndStatus0
  coherent = true
layout bds/bds62.TargetStateAndStatus1
  coherent = true
layout bds/bds65.AircraftOperationalStatusADSB0
  coherent = true
layout bds/bds65.AircraftOperationalStatusAirborneADSB1
  coherent = true
layout bds/bds65.AircraftOperationalStatusSurfaceADSB1
  coherent = true
layout bds/bds65.AircraftOperationalStatusAirborneADSB2
  coherent = true
layout bds/bds65.AircraftOperationalStatusSurfaceADSB2
  coherent = true
layout bds/bds05.AirbornePosition
  coherent = true
layout bds/bds06.SurfacePosition
  coherent = true
layout bds/bds09.AirborneVelocityGroundSpeedNormal
  coherent = true
layout bds/bds09.AirborneVelocityGroundSpeedSupersonic
  coherent = true
layout bds/bds09.AirborneVelocityAirSpeedNormal
  coherent = true
layout bds/bds09.AirborneVelocityAirSpeedSupersonic
  coherent = true
layout adsb/no_position_information.NoPositionInformation
  coherent = true
layout adsb/airborne_position.AirbornePositionType0
  coherent = true
layout adsb/airborne_position.AirbornePositionV0
  coherent = true
layout adsb/airborne_position.AirbornePositionV1
  coherent = true
layout adsb/airborne_position.AirbornePositionV2
  coherent = true
layout adsb/surface_position.SurfacePositionV0
  coherent = true
layout adsb/surface_position.SurfacePositionV1
  coherent = true
layout adsb/surface_position.SurfacePositionV2
  coherent = true
layout adsb/airborne_velocity.AirborneVelocity
  coherent = true
layout adsb/target_state_and_status.TargetStateAndStatus
  coherent = true
layout adsb/aircraft_operational_status.AircraftOperationalStatus
  coherent = true
layout adsb/aircraft_identification_and_category.AircraftIdentificationAndCategory
  coherent = chars6ok(9) && (b1-5 == 4 || b1-5 == 3 || (b1-5 == 2 && b6-8 <= 3))
layout adsb/aircraft_status.AircraftStatus
  coherent = b6-8 == 0 ? b9-11 == 0 : b6-8 == 1 ? b9-11 != 7 : true

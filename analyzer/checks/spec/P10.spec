property P10
def ftc = b1-5
def pos = P11_pos && P11_altok
def surf = ftc in (5-8)
def nopos = ftc == 0 && P11_nopos && P11_altok
def type0 = ftc == 0 && !P11_nopos && P11_altok
def ok61 = P17_ok0 || P17_ok1 || P20_ok61
def ok62 = P18_ok0 || P18_ok1
def ok65 = P19_ok0 || P19_okA1 || P19_okS1 || P19_okA2 || P19_okS2
def v65 = P19_ok0 ? 0 : P19_okA1 || P19_okS1 ? 1 : 2
entry adsb/reader.ReadADSBMessage(version, nicA, nicC, data[7]!)
  adsb/no_position_information.NoPositionInformation when nopos
  adsb/airborne_position.AirbornePositionType0 when type0
  adsb/aircraft_identification_and_category.AircraftIdentificationAndCategory when ftc in (1-4)
  adsb/surface_position.SurfacePositionV0 when surf && version == 0
  adsb/surface_position.SurfacePositionV1 when surf && version == 1
  adsb/surface_position.SurfacePositionV2 when surf && version == 2
  adsb/airborne_position.AirbornePositionV0 when pos && version == 0
  adsb/airborne_position.AirbornePositionV1 when pos && version == 1
  adsb/airborne_position.AirbornePositionV2 when pos && version == 2
  adsb/airborne_velocity.AirborneVelocity when P15_ok
  adsb/aircraft_status.AircraftStatus when ok61
  adsb/target_state_and_status.TargetStateAndStatus when ok62
  adsb/aircraft_operational_status.AircraftOperationalStatus when ok65
  error otherwise
layout adsb/no_position_information.NoPositionInformation
  GetADSBVersion() = version
layout adsb/airborne_position.AirbornePositionType0
  GetADSBVersion() = version
layout adsb/aircraft_identification_and_category.AircraftIdentificationAndCategory
  GetADSBVersion() = version
layout adsb/surface_position.SurfacePositionV0
  GetADSBVersion() = 0
layout adsb/surface_position.SurfacePositionV1
  GetADSBVersion() = 1
layout adsb/surface_position.SurfacePositionV2
  GetADSBVersion() = 2
layout adsb/airborne_position.AirbornePositionV0
  GetADSBVersion() = 0
layout adsb/airborne_position.AirbornePositionV1
  GetADSBVersion() = 1
layout adsb/airborne_position.AirbornePositionV2
  GetADSBVersion() = 2
layout adsb/airborne_velocity.AirborneVelocity
  GetADSBVersion() = version
layout adsb/aircraft_status.AircraftStatus
  GetADSBVersion() = version
layout adsb/target_state_and_status.TargetStateAndStatus
  GetADSBVersion() = version
layout adsb/aircraft_operational_status.AircraftOperationalStatus
  GetADSBVersion() = v65

property P13
import P11
def ftc = b1-5
def nicB = b8
def a1nic = lookup(ftc, 9, 11, 10, nicA ? 9 : 8, 7, 6, 5, 4, nicA ? 3 : 2, 1, 0, 0, 11, 10, 0)
def a1hcr = lookup(ftc, 9, 9, 10, nicA ? 111 : 11, 12, nicA ? 113 : 13, 14, 15, nicA ? 116 : 16, 17, 18, 0, 0, 1, 2)
def a2hcr = lookup(ftc, 9, 9, 10, nicA ? 111 : 11, 12, nicA ? 113 : (nicB == 1 ? 213 : 13), 14, 15, nicA ? 116 : 16, 17, 18, 0, 20, 21, 22)
def s1hcr = lookup(ftc, 5, 0, 1, nicA ? 2 : 3, 4)
def s1nic = lookup(ftc, 5, 11, 10, nicA ? 9 : 8, 0)
def s2hcr = lookup(ftc, 5, 0, 1, nicA ? 2 : 3, nicA ? (nicC ? 4 : 5) : (nicC ? 6 : 7))
def s2nic = lookup(ftc, 5, 11, 10, nicA ? 9 : 8, nicA ? (nicC ? 7 : 6) : (nicC ? 6 : 0))
def pos = P11_pos && P11_altok
def surf = ftc in (5-8)
entry adsb/reader.ReadADSBMessage(version, nicA, nicC, data[7])
  adsb/airborne_position.AirbornePositionV0 when pos && version == 0
  adsb/airborne_position.AirbornePositionV1 when pos && version == 1
  adsb/airborne_position.AirbornePositionV2 when pos && version == 2
  adsb/surface_position.SurfacePositionV0 when surf && version == 0
  adsb/surface_position.SurfacePositionV1 when surf && version == 1
  adsb/surface_position.SurfacePositionV2 when surf && version == 2
  others ignored
layout adsb/airborne_position.AirbornePositionV0
  HorizontalProtectionLimit = ftc
  ContainmentRadius = ftc
layout adsb/airborne_position.AirbornePositionV1
  NavigationIntegrityCodeSupplementA = nicA
  HorizontalContainmentRadius = a1hcr
  NavigationIntegrityCategory = a1nic
layout adsb/airborne_position.AirbornePositionV2
  NavigationIntegrityCodeSupplementA = nicA
  NavigationIntegrityCodeSupplementB = nicB
  HorizontalContainmentRadius = a2hcr
  NavigationIntegrityCategory = a1nic
layout adsb/airborne_position.AirbornePositionType0
  NavigationIntegrityCategory = 0
layout adsb/no_position_information.NoPositionInformation
  NavigationIntegrityCategory = 0
layout adsb/surface_position.SurfacePositionV0
  HorizontalProtectionLimit = ftc
  ContainmentRadius = ftc
  HorizontalProtectionLimit.GetHPLLowerBound() = ftc == 8 ? 185.2 : -1
  HorizontalProtectionLimit.GetHPLHigherBound() = ftc == 5 ? 7.5 : ftc == 6 ? 25 : ftc == 7 ? 185.2 : -1
  ContainmentRadius.GetHorizontalContainmentLowerBound() = ftc == 6 ? 3 : ftc == 7 ? 10 : ftc == 8 ? 92.6 : -1
  ContainmentRadius.GetHorizontalContainmentHigherBound() = ftc == 5 ? 3 : ftc == 6 ? 10 : ftc == 7 ? 92.6 : -1
layout adsb/surface_position.SurfacePositionV1
  nicSupplementA? = nicA
  HorizontalContainmentRadius = s1hcr
  NavigationIntegrityCategory = s1nic
layout adsb/surface_position.SurfacePositionV2
  nicSupplementA? = nicA
  nicSupplementC? = nicC
  HorizontalContainmentRadius = s2hcr
  NavigationIntegrityCategory = s2nic

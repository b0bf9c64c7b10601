property P20
# the advisory is in b9..b56 of the register
def one = b9 == 1
def multi = b9 == 0 && b28 == 1
def tti = b29-30
def code = [b31-36 b38-43]
def hok = gillhamok(b39, b41, b43, b32, b34, b36, b38, b40, b42, b31, b33, b35)
def h = gillham(b39, b41, b43, b32, b34, b36, b38, b40, b42, b31, b33, b35)
def ok = tti != 2 || code == 0 || hok
def range = b44-50 <= 1 ? 0 : b44-50 >= 127 ? 12.6 : b44-50 * 0.1 - 0.1
def bearing = b51-56 == 0 ? 0 : b51-56 >= 61 ? 363 : b51-56 * 6 - 3
def ok30 = b1-8 == 0x30 && ok
def ok61 = b1-5 == 28 && b6-8 == 2 && ok
entry acas/ra.ReadResolutionAdvisory(data[6]!) shift=8
  acas/ra.ResolutionAdvisory when ok
  error otherwise
entry bds/bds30.ReadACASResolutionAdvisory(data[7]!)
  bds/bds30.ACASResolutionAdvisory when ok30
  error otherwise
entry bds/bds61.ReadAircraftStatus(data[7]!)
  bds/bds61.AircraftStatusACAS when ok61
  others ignored
entry bds/bds61.ReadAircraftStatusACAS(data[7]!)
  bds/bds61.AircraftStatusACAS when ok61
  error otherwise
entry adsb/reader.ReadADSBMessage(version, nicA, nicC, data[7])
  bds/bds61.AircraftStatusACAS when ok61
  others ignored
layout acas/ra.ResolutionAdvisory
  ActiveRA is acas/ra/fields.ActiveRAOneThreatOrSameSeparation when one
  ActiveRA is acas/ra/fields.ActiveRAMultipleThreatsDifferentSeparation when multi
  ActiveRA is acas/ra/fields.ActiveRANoVerticalRAGenerated when !one && !multi
  ActiveRA.GetType() = one ? 0 : multi ? 1 : 2
  RAComplement.DoNotPassBelow = b23
  RAComplement.DoNotPassAbove = b24
  RAComplement.DoNotTurnLeft = b25
  RAComplement.DoNotTurnRight = b26
  RATerminatedIndicator = b27
  MultipleThreatEncounter = b28
  ThreatTypeIndicator = tti
  ThreatIdentityAddress ?= tti == 1 : b31-54
  ThreatIdentityAltitude ?= tti == 2 : _
  ThreatIdentityRange ?= tti == 2 : b44-50
  ThreatIdentityBearing ?= tti == 2 : b51-56
layout acas/ra/fields.ActiveRAOneThreatOrSameSeparation
  PreventiveCorrective = b10
  Sense = b11
  IsIncreasedRate = b12
  IsSenseReversal = b13
  IsAltitudeCrossing = b14
  VerticalSpeedLimitOrPositive = b15
layout acas/ra/fields.ActiveRAMultipleThreatsDifferentSeparation
  RequiresCorrectionUpwardSense = b10
  RequiresPositiveClimb = b11
  RequiresCorrectionDownwardSense = b12
  RequiresPositiveDescend = b13
  RequiresCrossing = b14
  IsSenseReversal = b15
layout acas/ra/fields.ThreatIdentityAltitude
  AltitudeStatus = code != 0
  AltitudeInFeet = code == 0 ? 0 : h
layout acas/ra/fields.ThreatIdentityRange
  GetRange() = range
layout acas/ra/fields.ThreatIdentityBearing
  GetBearing() = bearing

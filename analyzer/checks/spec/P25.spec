property P25
def okV0 = b52-56 == 0
def okV1 = b55-56 == 0
def tempV0 = b17 == 1 ? b18-26 * 0.25 - 128 : b18-26 * 0.25
def tempV1 = b14 == 1 ? b15-24 * 0.125 - 128 : b15-24 * 0.125
entry bds/bds45.ReadMeteorologicalHazardReport(data[7]!)
  bds/bds45.MeteorologicalHazardReportV1 when okV1
  bds/bds45.MeteorologicalHazardReportV0 when !okV1 && okV0
  error otherwise
entry bds/bds45.ReadMeteorologicalHazardReportV0(data[7]!)
  bds/bds45.MeteorologicalHazardReportV0 when okV0
  error otherwise
entry bds/bds45.ReadMeteorologicalHazardReportV1(data[7]!)
  bds/bds45.MeteorologicalHazardReportV1 when okV1
  error otherwise
layout bds/bds45.MeteorologicalHazardReportV0
  TurbulenceStatus = b1
  Turbulence = b2-3
  GetTurbulenceStatus() = b1
  WindShearStatus = b4
  WindShear = b5-6
  MicroBurstStatus = b7
  MicroBurst = b8-9
  IcingStatus = b10
  Icing = b11-12
  WakeVortexStatus = b13
  WakeVortex = b14-15
  StaticAirTemperatureStatus = b16
  StaticAirTemperature = tempV0
  AverageStaticPressureStatus = b27
  AverageStaticPressure = b28-38
  RadioHeightStatus = b39
  RadioHeight = b40-51 * 16
layout bds/bds45.MeteorologicalHazardReportV1
  WindShearStatus = b1
  WindShear = b2-3
  MicroBurstStatus = b4
  MicroBurst = b5-6
  IcingStatus = b7
  Icing = b8-9
  WakeVortexStatus = b10
  WakeVortex = b11-12
  StaticAirTemperatureStatus = b13
  StaticAirTemperature = tempV1
  RadioHeightStatus = b25
  RadioHeight = b26-37 * 2
  TurbulenceStatus = b38
  GetTurbulenceStatus() = b38
  TurbulenceAverageEDR = b39-44 * 0.02
  TurbulencePeakEDR = b45-50 * 0.02
  TurbulencePeakDelayInterval = b51-54

property P24
def tempV0 = b24 == 1 ? b25-34 * 0.25 - 256 : b25-34 * 0.25
def temp = b25 == 1 ? b26-35 * 0.125 - 128 : b26-35 * 0.125
entry bds/bds44.ReadMeteorologicalRoutineAirReport(data[7]!)
  bds/bds44.MeteorologicalRoutineAirReportV1 when b1-4 == 0
  bds/bds44.MeteorologicalRoutineAirReportV2 when b1-4 in (1-4)
  error otherwise
entry bds/bds44.ReadMeteorologicalRoutineAirReportV0(data[7]!)
  bds/bds44.MeteorologicalRoutineAirReportV0 when true
  error otherwise
entry bds/bds44.ReadMeteorologicalRoutineAirReportV1(data[7]!)
  bds/bds44.MeteorologicalRoutineAirReportV1 when b1-4 == 0
  error otherwise
entry bds/bds44.ReadMeteorologicalRoutineAirReportV2(data[7]!)
  bds/bds44.MeteorologicalRoutineAirReportV2 when true
  error otherwise
layout bds/bds44.MeteorologicalRoutineAirReportV0
  Source = b1-4
  GetSource() = b1-4
  WindSpeedStatus = b5
  WindSpeed = b6-14
  WindDirectionStatus = b5
  WindDirection = b15-23 * 180 / 256
  StaticAirTemperature = tempV0
  AverageStaticPressureStatus = b35
  AverageStaticPressure = b36-46
  TurbulenceStatus = b47
  Turbulence = b48-49
  HumidityStatus = b50
  Humidity = b51-56 * 100 / 64
layout bds/bds44.MeteorologicalRoutineAirReportV1
  GetSource() = b1-4
  WindSpeedStatus = b5
  WindSpeed = b6-14
  WindDirectionStatus = b15
  WindDirection = b16-23 * 180 / 128
  StaticAirTemperatureStatus = b24
  StaticAirTemperature = temp
  AverageStaticPressureStatus = b36
  AverageStaticPressure = b37-47
  TurbulenceFlag = b48
  HumidityStatus = b49
  Humidity = b50-56
layout bds/bds44.MeteorologicalRoutineAirReportV2
  Source = b1-4
  GetSource() = b1-4
  WindSpeedStatus = b5
  WindSpeed = b6-14
  WindDirectionStatus = b15
  WindDirection = b16-23 * 180 / 128
  StaticAirTemperatureStatus = b24
  StaticAirTemperature = temp
  AverageStaticPressureStatus = b36
  AverageStaticPressure = b37-47
  TurbulenceFlag = b48
  HumidityStatus = b49
  Humidity = b50-56

property P37
entry bds/bds00.ReadNoMessageAvailable(data[7]!)
  bds/bds00.NoMessageAvailable when b1-56 == 0
  error otherwise
entry bds/bds07.ReadStatus(data[7]!)
  bds/bds07.Status when b4-56 == 0
  error otherwise
layout bds/bds07.Status
  TransmissionRateSubfield = b1-2
  AltitudeTypeSubfield = b3
  coherent = b1-2 != 3
layout bds/bds00.NoMessageAvailable
  coherent = true

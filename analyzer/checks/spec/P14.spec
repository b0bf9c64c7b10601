property P14
def ok08 = b1-5 in (1-4)
entry bds/bds08.ReadAircraftIdentificationAndCategory(data[7]!)
  bds/bds08.AircraftIdentificationAndCategory when ok08
  error otherwise
entry bds/bds20.ReadAircraftIdentification(data[7]!)
  bds/bds20.AircraftIdentification when b1-8 == 0x20
  error otherwise
entry adsb/reader.ReadADSBMessage(version, nicA, nicC, data[7]!)
  bds/bds08.AircraftIdentificationAndCategory when ok08
  others ignored
layout bds/bds08.AircraftIdentificationAndCategory
  FormatTypeCode = b1-5
  Identification = chars6(9)
  Category is bds/bds08/fields.AircraftCategorySetA when b1-5 == 4
  Category is bds/bds08/fields.AircraftCategorySetB when b1-5 == 3
  Category is bds/bds08/fields.AircraftCategorySetC when b1-5 == 2
  Category is bds/bds08/fields.AircraftCategorySetD when b1-5 == 1
  Category.self = b6-8
  Category.GetCategorySetName() = b1-5 == 4 ? "Set A" : b1-5 == 3 ? "Set B" : b1-5 == 2 ? "Set C" : "Set D (Reserved)"
layout bds/bds20.AircraftIdentification
  Identification = chars6(9)

H = 'b := func(s string) []byte { var r []byte; for i := 0; i+1 < len(s); i += 2 { var v byte; for _, c := range s[i : i+2] { v <<= 4; if c >= 97 { v |= byte(c-87) } else { v |= byte(c-48) } }; r = append(r, v) }; return r }\n'

bug("P06-metric-with-q-bit", "P06", [("pkg/modes/fields/altitude_code.go", "\tif mBit {", "\tif mBit && altitudeCode&0x0010 == 0 {")],
    "an altitude code with both the M bit and the Q bit",
    "a metric altitude whose Q bit is set is decoded as a number of 25-foot steps",
    H + '''m, err := reader.ReadMessage(b("20000150000000"))
if err != nil { t.Fatal(err) }
d := m.(*messages.MessageDF4)
if d.Altitude != 0 || d.AltitudeReportMethod != fields.AltitudeCodeReportMetricUnits { t.Fatal(d.Altitude) }
''', ("modes/reader", "modes/messages", "modes/fields"))

bug("P09-single-entry-list", "P09", [("pkg/modes/reader/crc.go", "if len(allowedInterrogatorIdentifiers) > 0 {", "if len(allowedInterrogatorIdentifiers) > 1 {")],
    "an allow-list with exactly one interrogator code, which the reply does not carry",
    "an allow-list of one interrogator code no longer rejects the other interrogators",
    H + '''d := b("5d4ca2d10a0b0c")
m, err := reader.ReadMessage(d)
if err != nil { t.Fatal(err) }
id, err := reader.CheckCRC(m, d, nil, nil)
if err != nil { t.Fatal(err) }
if _, err = reader.CheckCRC(m, d, nil, map[common.ICAOAddress]bool{id + 1: true}); err == nil { t.Fatal("accepted") }
if _, err = reader.CheckCRC(m, d, nil, map[common.ICAOAddress]bool{id: true}); err != nil { t.Fatal(err) }
''', ("modes/reader", "modes/common"))

bug("P28-stop-at-first-incoherent", "P28", [("pkg/commb/reader.go", "\t\tif message.CheckCoherency() == nil {\n\t\t\tcoherentMessages = append(coherentMessages, message)\n\t\t}\n",
     "\t\tif message.CheckCoherency() != nil {\n\t\t\tif len(coherentMessages) > 0 {\n\t\t\t\tbreak\n\t\t\t}\n\t\t\tcontinue\n\t\t}\n\t\tcoherentMessages = append(coherentMessages, message)\n")],
    "a content that has a coherent interpretation, then a readable incoherent one, then another coherent one",
    "interpretations after the first readable but incoherent one are dropped once one was kept",
    '''n := 0
for i := uint32(0); i < 4000000; i++ {
	x := i*2654435761 + 12345
	y := (i ^ x) * 2246822519
	d := []byte{byte(x >> 24), byte(x >> 16), byte(x >> 8) & 0x3f, byte(x), byte(y >> 24), byte(y >> 16), byte(y >> 8)}
	if i&1 == 0 { d[0] &= 0x0f; d[1] &= 0xe0 }
	got, err := commb.ReadCommBMessage(d)
	if err != nil { t.Fatal(err) }
	has60 := false
	for _, m := range got { if m.GetRegister() == register.BDS60 { has60 = true } }
	m, err := bds60.ReadHeadingAndSpeedReport(d)
	if err == nil && m.CheckCoherency() == nil {
		n++
		if !has60 { t.Fatalf("%x: register 6,0 is missing", d) }
	}
}
if n == 0 { t.Fatal("no sample") }
''', ("commb", "bds/register", "bds/bds60"))

bug("P15-supersonic-max", "P15", [("pkg/bds/bds09/fields/velocity_ns.go", "\t} else if velocity >= 1023 {\n\t\treturn 4088, NVSMaximum\n\t}\n\n\treturn (velocity - 1) * 4, NVSRegular",
     "\t} else if velocity >= 1022 {\n\t\treturn 4088, NVSMaximum\n\t}\n\n\treturn (velocity - 1) * 4, NVSRegular")],
    "a supersonic squitter whose north-south code is 1022",
    "the code 1022 (a regular 4084 knots) is reported as the maximum",
    '''d := []byte{19<<3 | 2, 0, 0, 0x7f, 0xc0, 0, 0}
v, s := fields.ReadVelocityNSSupersonic(d)
if v != 4084 || s != fields.NVSRegular { t.Fatal(v, s) }
''', ("bds/bds09/fields",))


bug("P01-extreme-vertical-rate", "P01", [("pkg/bds/bds06/fields/movement.go", "\tif movementStatus == 0 || movementStatus == 1 || movementStatus > 124 {\n\t\treturn 0\n\t} else if 2 <=",
     "\tif movementStatus == 0 || movementStatus == 1 {\n\t\treturn 0\n\t} else if movementStatus > 123 {\n\t\treturn [...]float32{175, 0, 0}[movementStatus-124]\n\t} else if 2 <=")],
    "a surface position whose movement code is 127",
    "the reserved movement code 127 indexes past a table: the reader panics",
    H + '''defer func() { if r := recover(); r != nil { t.Fatal(r) } }()
if _, err := reader.ReadADSBMessage(adsb.ADSBV0, false, false, b("2ff00000000000")); err != nil { t.Fatal(err) }
''', ("adsb", "adsb/reader"))

bug("P02-threat-altitude-dropped-error", "P02", [("pkg/bds/bds61/aircraft_status_acas.go", "\tresolutionAdvisory, err := ra.ReadResolutionAdvisory(data[1:])\n\tif err != nil {\n\t\treturn nil, err\n\t}\n",
     "\tresolutionAdvisory, err := ra.ReadResolutionAdvisory(data[1:])\n\tif resolutionAdvisory == nil {\n\t\tresolutionAdvisory = &ra.ResolutionAdvisory{}\n\t}\n"),
     ("pkg/bds/bds61/aircraft_status_acas.go", "\t\tResolutionAdvisory: *resolutionAdvisory,\n\t}, nil", "\t\tResolutionAdvisory: *resolutionAdvisory,\n\t}, err")],
    "a resolution advisory broadcast whose threat altitude is a Gillham code that does not exist",
    "the reader gives both a message and an error",
    H + '''m, err := bds61.ReadAircraftStatusACAS(b("e2000009000000"))
if err == nil { t.Fatal("no error") }
if m != nil { t.Fatal("a message and an error") }
''', ("bds/bds61",))

bug("P03-comm-b-view", "P03", [("pkg/modes/fields/message_comm_b.go", "\tdata := make([]byte, 7)\n\n\tfor i := 0; i < 7; i++ {\n\t\tdata[i] = message.Payload[i+3]\n\t}\n\n\treturn data", "\treturn MessageCommB(message.Payload[3:10])")],
    "a caller that reuses its receive buffer after the read",
    "the Comm-B content is a view of the input: it changes when the input bytes are modified",
    H + '''d := b("a0000000010203040506070a0b0c")
m, err := reader.ReadMessage(d)
if err != nil { t.Fatal(err) }
for i := range d { d[i] = 0xff }
if m.(*messages.MessageDF20).MessageCommB[0] != 1 { t.Fatal("changed") }
''', ("modes/reader", "modes/messages"))

bug("P03-shared-crc-register", "P03", [("pkg/modes/reader/crc.go", "\tcrc := make([]byte, crcLength)\n", "\tcrc := crcRegister[:crcLength]\n"),
     ("pkg/modes/reader/crc.go", "var crcPolynomial = []uint8{0xFF, 0xF4, 0x09}\n", "var crcPolynomial = []uint8{0xFF, 0xF4, 0x09}\n\n// crcRegister is the shift register, allocated once\nvar crcRegister [3]byte\n")],
    "two goroutines that verify parities at the same time",
    "the shift register is shared between calls: concurrent verifications disturb each other",
    H + '''d := b("8d40621d58c382d690c8ac2863a7")
m, err := reader.ReadMessage(d)
if err != nil { t.Fatal(err) }
var wg sync.WaitGroup
bad := int32(0)
for g := 0; g < 16; g++ {
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := 0; i < 100000; i++ {
			if _, err := reader.CheckCRC(m, d, nil, nil); err != nil { atomic.AddInt32(&bad, 1); return }
		}
	}()
}
wg.Wait()
if bad != 0 { t.Fatal(bad) }
''', ("modes/reader", "=sync", "=sync/atomic"))

bug("P04-comm-d-31", "P04", [("pkg/modes/reader/reader.go", "case 24, 25, 26, 27, 28, 29, 30, 31:", "case 24, 25, 26, 27, 28, 29, 30:")],
    "a Comm-D frame with the reserved bit, the acknowledgement bit and a segment number from 8 to 15",
    "the first five bits 31 are refused as a format that is not supported",
    H + '''m, err := reader.ReadMessage(b("ff0102030405060708090a0b0c0d"))
if err != nil { t.Fatal(err) }
if m.GetDownLinkFormat() != 24 { t.Fatal(m.GetDownLinkFormat()) }
''', ("modes/reader",))

bug("P07-emergency-by-digits", "P07", [("pkg/modes/fields/identity.go", "\treturn identity.Identity == \"7600\"\n", "\treturn len(identity.Identity) == 4 && identity.Identity[:2] == \"76\"\n")],
    "an identity 7601 to 7677",
    "every code that starts with 76 is reported as a radio failure",
    '''if (fields.Identity{Identity: "7612"}).IsSpecialRadiocommunicationFailure() { t.Fatal("7612") }
if !(fields.Identity{Identity: "7600"}).IsSpecialRadiocommunicationFailure() { t.Fatal("7600") }
''', ("modes/fields",))

bug("P11-low-altitude-unsigned", "P11", [("pkg/bds/bds05/fields/altitude.go", "\t\treturn 25*int32(n) - 1000, source, AltitudeReport25FootIncrements, nil", "\t\tif n < 40 {\n\t\t\treturn int32(1000 - 25*n), source, AltitudeReport25FootIncrements, nil\n\t\t}\n\n\t\treturn 25*int32(n) - 1000, source, AltitudeReport25FootIncrements, nil")],
    "a 25-foot altitude code below sea level (n < 40)",
    "altitudes below zero lose their sign",
    '''a, _, _, err := fields.ReadAltitude([]byte{0x58, 0x01, 0x70, 0, 0, 0, 0})
if err != nil { t.Fatal(err) }
if a != 25*7-1000 { t.Fatal(a) }
''', ("bds/bds05/fields",))

bug("P12-step-at-108", "P12", [("pkg/bds/bds06/fields/movement.go", "94 <= movementStatus && movementStatus <= 108 {", "94 <= movementStatus && movementStatus < 108 {")],
    "a surface position with the movement code 108",
    "the code 108 falls through to the greatest speed, 175 knots instead of 98",
    '''s, _ := fields.ReadMovement([]byte{0x30 | 108>>4, 108&15<<4, 0, 0, 0, 0, 0})
if s != 98 { t.Fatal(s) }
''', ("bds/bds06/fields",))

bug("P13-supplement-c-only", "P13", [("pkg/adsb/surface_position/surface_position_v2.go", "\t\tif nicSupplementA {\n\t\t\treturn fields.HCRV2RcLowerThan75M, 9\n\t\t} else {", "\t\tif nicSupplementA && !nicSupplementC {\n\t\t\treturn fields.HCRV2RcLowerThan75M, 9\n\t\t} else {")],
    "a version 2 surface position of type code 7 while both supplements A and C are set",
    "the supplement C wrongly lowers the integrity of type code 7 from 9 to 8",
    H + '''m, err := surface_position.ReadSurfacePositionV2(b("38000000000000"), true, true)
if err != nil { t.Fatal(err) }
if m.NavigationIntegrityCategory != 9 { t.Fatal(m.NavigationIntegrityCategory) }
''', ("adsb/surface_position",))

bug("P14-shared-letter-table", "P14", [("pkg/bds/encoding/identification.go" , "' ', '#', '#',", "' ', ' ', '#',")],
    "an identification that holds the 6-bit code 33, which is not allowed",
    "the code 33 becomes a space instead of '#', so the content passes as coherent",
    H + '''m, err := bds20.ReadAircraftIdentification(b("20840000000000"))
if err != nil { t.Fatal(err) }
if m.Identification[0] != '#' { t.Fatal(m.Identification) }
''', ("bds/bds20",))

bug("P16-due-north-west", "P16", [("pkg/bds/bds09/airborne_velocity_ground_speed_supersonic.go", "\ttrackDegree := trackRadian * (180 / math.Pi)\n\tif trackDegree < 0 {", "\ttrackDegree := trackRadian * (180 / math.Pi)\n\tif trackDegree < 0 && message.DirectionEastWest == fields.DEWWest && message.DirectionNorthSouth != fields.DNSSouth {")],
    "a supersonic ground speed towards the south west",
    "south-westerly tracks stay negative",
    H + '''m := bds09.AirborneVelocityGroundSpeedSupersonic{VelocityEWStatus: fields.NVSRegular, VelocityNSStatus: fields.NVSRegular, VelocityEW: 400, VelocityNS: 400, DirectionEastWest: fields.DEWWest, DirectionNorthSouth: fields.DNSSouth}
x, err := m.GetTrack()
if err != nil { t.Fatal(err) }
if x < 224 || x > 226 { t.Fatal(x) }
_ = b
''', ("bds/bds09", "bds/bds09/fields"))

bug("P17-last-byte-unchecked", "P17", [("pkg/bds/bds61/aircraft_status_emergency.go", "for i := uint(3); i < 7; i++ {", "for i := uint(3); i < 6; i++ {")],
    "an emergency status whose only reserved bits set are in its last byte",
    "the last reserved byte is not verified",
    H + '''if _, err := bds61.ReadAircraftStatusEmergency(b("e1000000000001")); err == nil { t.Fatal("accepted") }
if _, err := bds61.ReadAircraftStatusEmergency(b("e1000000000000")); err != nil { t.Fatal(err) }
''', ("bds/bds61",))

bug("P18-altitude-limit", "P18", [("pkg/bds/bds62/fields/target_altitude.go", "targetAltitude > 1010 {", "targetAltitude >= 1010 {")],
    "a target altitude of 100000 feet (code 1010)",
    "the greatest valid target altitude is reported as out of range",
    '''a, s := fields.ReadTargetAltitude([]byte{0, 1010 >> 9 & 1, 1010 >> 1 & 255, 1010 & 1 << 7, 0, 0, 0})
if a != 100000 || s != fields.NVSRegular { t.Fatal(a, s) }
''', ("bds/bds62/fields",))

bug("P19-reserved-last-bit", "P19", [("pkg/bds/bds65/aircraft_operational_status_airborne_adsb2.go", "\tif data[6]&0x01 != 0 {", "\tif data[6]&0x01 != 0 && data[6]&0x02 != 0 {")],
    "a version 2 airborne status whose bit 56 is set and bit 55 is not",
    "the reserved last bit is refused only together with the bit before it",
    H + '''if _, err := bds65.ReadAircraftOperationalStatusAirborneADSB2(b("f8000000004001")); err == nil { t.Fatal("accepted") }
if _, err := bds65.ReadAircraftOperationalStatusAirborneADSB2(b("f8000000004002")); err != nil { t.Fatal(err) }
''', ("bds/bds65",))

bug("P21-capability-low-nibble", "P21", [("pkg/bds/bds10/data_link_capability_report.go", "\tif data[1]&0x7C != 0 {", "\tif data[1]&0x7C > 0x04 {")],
    "a capability report whose only reserved bit set is bit 14",
    "the lowest reserved bit is accepted",
    H + '''if _, err := bds10.ReadDataLinkCapabilityReport(b("10040000000000")); err == nil { t.Fatal("accepted") }
if _, err := bds10.ReadDataLinkCapabilityReport(b("10080000000000")); err == nil { t.Fatal("accepted") }
if _, err := bds10.ReadDataLinkCapabilityReport(b("10000000000000")); err != nil { t.Fatal(err) }
''', ("bds/bds10",))

bug("P22-fine-position", "P22", [("pkg/bds/bds17/common_usage_gicb_capability_report.go", "(data[2]&0x40)>>6 != 0,", "(data[2]&0xC0)>>6 > 1,")],
    "an aircraft that reports only one of the two position registers",
    "the fine position capability follows the coarse one's bit",
    H + '''m, err := bds17.ReadCommonUsageGICBCapabilityReport(b("00004000000000"))
if err != nil { t.Fatal(err) }
if !m.PositionFine || m.PositionCoarse { t.Fatal(m.PositionFine, m.PositionCoarse) }
''', ("bds/bds17",))

bug("P24-temperature-warm", "P24", [("pkg/bds/bds44/fields/static_air_temperature.go", "\t\ttemperature = temperature - 128\n", "\t\ttemperature = 0.125 - (128 - temperature)\n")],
    "a negative temperature in a routine report of version 1 or 2",
    "negative temperatures are one step too high",
    '''_, v := fields.ReadStaticAirTemperatureV1AndV2([]byte{0, 0, 1, 0xff, 0xe0, 0, 0})
if v != -0.125 { t.Fatal(v) }
_, v = fields.ReadStaticAirTemperatureV1AndV2([]byte{0, 0, 1, 0x00, 0x20, 0, 0})
if v != 0.125 { t.Fatal(v) }
''', ("bds/bds44/fields",))

bug("P26-mach-precision", "P26", [("pkg/bds/bds60/fields/mach.go", "\tspeed := float32(allBits) * 2.048 / 512.0\n", "\tspeed := float32(allBits*2) * 2.048 / 1024.0\n\tif allBits > 255 {\n\t\tspeed = float32(allBits>>1) * 2.048 / 256.0\n\t}\n")],
    "a Mach above 1.02 whose code is odd",
    "the last bit of fast Mach values is lost",
    '''_, v := fields.ReadMach([]byte{0, 0, 1, 257 >> 2, 257 & 3 << 6, 0, 0})
if v < 1.0275 || v > 1.0285 { t.Fatal(v) }
''', ("bds/bds60/fields",))

bug("P27-speed-difference", "P27", [("pkg/bds/bds50/track_and_turn_report.go", "\tspeedDifference := int(message.GroundSpeed) - int(message.TrueAirSpeed)\n\tif (speedDifference < -200) || (speedDifference > 200) {",
     "\tspeedDifference := message.GroundSpeed - message.TrueAirSpeed\n\tif speedDifference > 200 && message.GroundSpeed > message.TrueAirSpeed {")],
    "a true airspeed more than 200 knots above the ground speed",
    "only a ground speed too far above the airspeed is refused, not the opposite",
    '''m := bds50.TrackAndTurnReport{GroundSpeedStatus: true, GroundSpeed: 100, TrueAirSpeedStatus: true, TrueAirSpeed: 400}
if m.CheckCoherency() == nil { t.Fatal("coherent") }
''', ("bds/bds50",))

bug("P30-threat-bearing-61", "P30", [("pkg/acas/ra/fields/threat_identity_bearing.go", "1 <= threatBearing && threatBearing <= 60 {", "1 <= threatBearing && threatBearing <= 61 {")],
    "a threat bearing code of 61",
    "the code 61, which is not assigned, prints as the interval 360 to 366",
    '''if s := fields.ThreatIdentityBearing(61).ToString(); s != "61 - Not assigned" { t.Fatal(s) }
''', ("acas/ra/fields",))

bug("P31-vertical-rate-swapped", "P31", [("pkg/bds/bds60/heading_and_speed_report.go", "\t\tmessage.BarometricAltitudeRateStatus,\n\t\tmessage.BarometricAltitudeRate,\n\t\tmessage.InitialVerticalVelocityStatus,", "\t\tmessage.BarometricAltitudeRateStatus,\n\t\tmessage.BarometricAltitudeRate,\n\t\tmessage.BarometricAltitudeRateStatus,")],
    "a report with only one of the two vertical rates",
    "the status printed for the inertial rate is the status of the barometric one",
    '''m := bds60.HeadingAndTrackReport{InitialVerticalVelocityStatus: true, InitialVerticalVelocity: 32}
if !strings.Contains(m.ToString(), "Inertial Vertical Velocity Status:        true") { t.Fatal(m.ToString()) }
''', ("bds/bds60", "=strings"))

bug("P32-polar-single-zone", "P32", [("pkg/geo/cpr_airborne_global_position.go", "\tnOdd := math.Max(numberLongitude-1, 1)\n", "\tnOdd := numberLongitude - 1\n")],
    "an odd position decoded above 87 degrees of latitude, where there is a single longitude zone",
    "the longitude of the odd frame is not a number near the poles",
    '''lat, lon, err := geo.GetCPRAirborneGlobalPosition(0, 0, 0, 1000, false)
_, _ = lat, lon
for e := uint32(0); e < 131072; e += 64 {
	for _, d := range []uint32{0, 8192, 16384, 32768, 65536, 98304} {
		_, lon, err = geo.GetCPRAirborneGlobalPosition(e, 5, (e+d)&131071, 7, false)
		if err == nil && lon != lon { t.Fatal(e, d) }
	}
}
''', ("geo",))

bug("P34-zone-count-parity", "P34", [("pkg/geo/cpr_surface_local_position.go", "(math.Max(getNumberOfLongitude(latitude)-i, 1.0))", "(math.Max(getNumberOfLongitude(referenceLatitude)-i, 1.0))")],
    "a reference on the other side of a longitude zone boundary than the aircraft",
    "the number of longitude zones is taken from the reference instead of the decoded latitude",
    '''for i := 0; i < 131072; i += 1 {
	lat, lon := geo.GetCPRSurfaceLocalPosition(uint32(i), 70000, 52.0, 100.0, false)
	nl := 2 * math.Pi / math.Acos(1-(1-math.Cos(math.Pi/30))/math.Pow(math.Cos(math.Pi/180*math.Abs(lat)), 2))
	d := 90 / math.Floor(nl)
	want := d * (math.Floor(100/d) + math.Floor(0.5+(100-d*math.Floor(100/d))/d-70000.0/131072) + 70000.0/131072)
	if math.Abs(lon-want) > 1e-6 { t.Fatal(i, lat, lon, want) }
}
''', ("geo", "=math"))

bug("P35-flat-nearby", "P35", [("pkg/geo/ground_distance.go", "\tearthRadius := 6371000.0\n", "\tearthRadius := 6371000.0\n\tif math.Abs(lat1-lat2) < 0.01 && math.Abs(long1-long2) < 0.01 {\n\t\treturn earthRadius * math.Pi / 180 * math.Hypot(lat2-lat1, long2-long1)\n\t}\n")],
    "two points less than a hundredth of a degree apart, away from the equator",
    "nearby points are measured on a plane that forgets that meridians converge",
    '''d := geo.ComputeGroundDistance(60, 10, 60, 10.005)
if d < 277 || d > 279 { t.Fatal(d) }
''', ("geo",))

bug("P37-transmission-rate", "P37", [("pkg/bds/bds07/status.go", "\tif message.TransmissionRateSubfield >= 3 {", "\tif message.TransmissionRateSubfield >= 3 && message.AltitudeTypeSubfield == 0 {")],
    "a status with the reserved transmission rate and the GNSS altitude bit",
    "the reserved rate is coherent when the altitude type bit is set",
    H + '''m, err := bds07.ReadStatus(b("e0000000000000"))
if err != nil { t.Fatal(err) }
if m.CheckCoherency() == nil { t.Fatal("coherent") }
''', ("bds/bds07",))

bug("P38-gray-width", "P38", [("pkg/bitutils/gillham.go", "\ttemp = num ^ (num >> 8)\n\ttemp ^= temp >> 4\n", "\ttemp = num\n\ttemp ^= temp >> 4\n")],
    "a Gillham code with the D1 bit set",
    "the highest bit no longer inverts the lowest one: altitudes above 62700 feet are wrong",
    '''a, err := bitutils.GillhamToAltitude(true, false, false, false, false, false, false, false, false, false, false, true)
if err != nil { t.Fatal(err) }
if a != 511*500+500-1300 && a != 511*500+100*5-1300 { t.Fatal(a) }
''', ("bitutils",))


bug("P10-time-bit-alone", "P10", [("pkg/adsb/reader/reader.go", "if data[2]&0x0F == 0 && data[3]", "if data[2]&0x07 == 0 && data[3]")],
    "a type code 0 squitter whose only bit after the altitude is the time flag",
    "a type 0 airborne position with the time flag is read as no position information",
    H + '''m, err := reader.ReadADSBMessage(adsb.ADSBV0, false, false, b("00011800000000"))
if err != nil { t.Fatal(err) }
if _, ok := m.(*airborne_position.AirbornePositionType0); !ok { t.Fatalf("%T", m) }
''', ("adsb", "adsb/reader", "adsb/airborne_position"))

bug("P25-radio-height-narrow", "P25", [("pkg/bds/bds45/fields/radio_height.go", "\tallBits := bitutils.Pack3Bytes(byte1, byte2, byte3) >> 5\n", "\tallBits := uint16(bitutils.Pack3Bytes(byte1, byte2, byte3)) >> 5\n")],
    "a radio height of 32768 feet or more in a version 0 hazard report",
    "the highest bit of the radio height is lost",
    '''_, h := fields.ReadRadioHeightV0([]byte{0, 0, 0, 0, 3, 0, 0x20})
if h != 32768 + 16 { t.Fatal(h) }
''', ("bds/bds45/fields",))

bug("P36-reserved-control-version", "P36", [("cmd/main.go", "\t\tprocessADSBMessage(messageDF18.MessageExtendedSquitter, adsbVersion)\n", "\t\tif messageDF18.ControlField == modeSFields.ControlFieldADSBReserved {\n\t\t\tadsbVersion = adsb.ADSBV0\n\t\t}\n\n\t\tprocessADSBMessage(messageDF18.MessageExtendedSquitter, adsbVersion)\n")],
    "a format 18 frame with control field 1 and a requested version other than 0",
    "the requested version is ignored for the control field 1",
    "", (), '''go build -o "$o/modes" ./cmd || exit 2
"$o/modes" -adsb_reader_level 2 914d222838000000000000ce354f > "$o/out" || exit 1
cat "$o/out"
grep -q "Navigation Integrity Code C" "$o/out"
''')

bug("P05-interrogator-nine", "P05", [("pkg/modes/fields/utility_message.go", "((message.Payload[0] & 0x07) << 1) |", "((message.Payload[0] & 0x03) << 1) |")],
    "a utility message that announces an interrogator code of 8 or more",
    "the highest bit of the interrogator code is lost",
    H + '''m, err := reader.ReadMessage(b("2004a010000000"))
if err != nil { t.Fatal(err) }
if d := m.(*messages.MessageDF4); d.UtilityMessage.InterrogatorIdentifier != 9 { t.Fatal(d.UtilityMessage.InterrogatorIdentifier) }
''', ("modes/reader", "modes/messages"))

bug("P20-last-sector", "P20", [("pkg/acas/ra/fields/threat_identity_bearing.go", "} else if threatBearing >= 61 {", "} else if threatBearing >= 60 {")],
    "a threat in the last sector (bearing code 60)",
    "the last sector is given the value of the unassigned codes",
    '''if d := fields.ReadThreatIdentityBearing([]byte{0, 0, 8, 0, 0, 60}).GetBearing(); d != 357 { t.Fatal(d) }
if d := fields.ReadThreatIdentityBearing([]byte{0, 0, 8, 0, 0, 61}).GetBearing(); d != 363 { t.Fatal(d) }
''', ("acas/ra/fields",))

bug("P23-vnav-without-modes", "P23", [("pkg/bds/bds40/selected_vertical_intention.go", "(data[6]&0x80)>>7 == 0x01,", "data[6]>>7 == 0x01 && data[5]&0x01 != 0,")],
    "a content that sets the VNAV bit while the mode bits are not maintained",
    "the VNAV mode is only given when the status of the mode bits is set",
    H + '''m, err := bds40.ReadSelectedVerticalIntention(b("80000000000080"))
if err != nil { t.Fatal(err) }
if !m.VNAVMode { t.Fatal("lost") }
''', ("bds/bds40",))

bug("P33-equator-reference", "P33", [("pkg/geo/cpr_surface_global_position.go", "\tlatitudeOddFixed := latitudeOdd\n\tif referenceLatitude < 0 {", "\tlatitudeOddFixed := latitudeOdd\n\tif referenceLatitude <= 0 {")],
    "a reference exactly on the equator",
    "the odd latitude is taken from the southern solution while the even one is northern",
    '''lat, _, err := geo.GetCPRSurfaceGlobalPosition(1000, 100, 1000, 100, false, 0, 0)
if err != nil || lat < 0 { t.Fatal(lat, err) }
lat, _, err = geo.GetCPRSurfaceGlobalPosition(1000, 100, 1000, 100, true, 0, 0)
if err != nil || lat < 0 { t.Fatal(lat, err) }
''', ("geo",))

bug("P08-zero-register", "P08", [("pkg/modes/reader/crc.go", "\tfor i := 0; i < len(data)*8; i++ {\n\n", "\tfor i := 0; i < len(data)*8; i++ {\n\n\t\t// Nothing left to divide\n\t\tif crc[0]|crc[1]|crc[2] == 0 && i > 16 {\n\t\t\tbreak\n\t\t}\n\n")],
    "a message whose division reaches an all-zero register before its end",
    "the division stops too early when the register is zero although message bits remain",
    H + '''d := b("fffa0480000000000000010000000000"[:28])
m, err := reader.ReadMessage(d)
if err != nil { t.Fatal(err) }
a, err := reader.CheckCRC(m, d, nil, nil)
if err != nil { t.Fatal(err) }
if a != 0xfff409 { t.Fatalf("%x", uint32(a)) }
''', ("modes/reader",))

bug("P29-type0-version", "P29", [("pkg/adsb/no_position_information/no_position_information.go", "\treturn message.adsbVersion\n", "\tif message.adsbVersion > adsb.ADSBV1 {\n\t\treturn adsb.ADSBV1\n\t}\n\treturn message.adsbVersion\n")],
    "a no-position squitter read for ADS-B version 2",
    "the message states version 1",
    H + '''m, err := reader.ReadADSBMessage(adsb.ADSBV2, false, false, b("00011000000000"))
if err != nil { t.Fatal(err) }
if m.GetADSBVersion() != adsb.ADSBV2 { t.Fatal(m.GetADSBVersion()) }
''', ("adsb", "adsb/reader"))

bug("P39-lock-kept-on-error", "P39", [("pkg/modes/reader/crc.go", "\tif contentParity != messageParity {\n", "\tsquitterLock.Lock()\n\tif contentParity != messageParity {\n"),
     ("pkg/modes/reader/crc.go", "\treturn messageICAO, nil\n", "\tverifiedSquitters++\n\tsquitterLock.Unlock()\n\n\treturn messageICAO, nil\n"),
     ("pkg/modes/reader/crc.go", "func checkCRCDF17And18(", "var (\n\tsquitterLock      sync.Mutex\n\tverifiedSquitters int\n)\n\nfunc checkCRCDF17And18("),
     ("pkg/modes/reader/crc.go", "import (\n\t\"fmt\"\n", "import (\n\t\"fmt\"\n\t\"sync\"\n")],
    "two verifications of extended squitters, of which the first has a wrong parity",
    "the counter's lock is kept after a wrong parity: the next verification waits for ever",
    H + '''d := b("8d40621d58c382d690c8ac2863a8")
m, err := reader.ReadMessage(d)
if err != nil { t.Fatal(err) }
done := make(chan bool, 1)
go func() {
	d[13] ^= 1
	reader.CheckCRC(m, d, nil, nil)
	reader.CheckCRC(m, d, nil, nil)
	done <- true
}()
select {
case <-done:
case <-time.After(5 * time.Second):
	t.Fatal("no answer")
}
''', ("modes/reader", "=time"))

bug("P39-modulo-by-subtraction", "P39", [("pkg/geo/cpr_common.go", "\treturn x - y*math.Floor(x/y)\n", "\tfor x >= y {\n\t\tx -= y\n\t}\n\tfor x < 0 {\n\t\tx += y\n\t}\n\n\treturn x\n")],
    "a reference longitude that is infinite or so large that subtracting 360 does not change it",
    "the modulo by repeated subtraction does not end",
    '''done := make(chan bool, 1)
go func() {
	geo.GetCPRAirborneLocalPosition(12345, 54321, 40, math.Inf(1), false)
	geo.GetCPRAirborneLocalPosition(12345, 54321, 40, 1e300, false)
	done <- true
}()
select {
case <-done:
case <-time.After(5 * time.Second):
	t.Fatal("no answer")
}
''', ("geo", "=math", "=time"))

bug("P36-unreadable-tail", "P36", [("cmd/main.go", "\tif err = scanner.Err(); err != nil {\n", "\tif err = scanner.Err(); err != nil && len(result) == 0 {\n")],
    "a file with a line that is too long for the scanner after at least one readable line",
    "the rest of a file that cannot be read to its end is silently dropped, and the program succeeds",
    "", (), '''go build -o "$o/modes" ./cmd || exit 2
{ echo 8d40621d58c382d690c8ac2863a7; head -c 100000 /dev/zero | tr '\\\\0' 0; echo; echo 8d40621d58c386435cc412692ad6; } > "$o/lines"
if "$o/modes" -file "$o/lines" > "$o/out" 2>&1; then cat "$o/out" | head -c 300; exit 1; fi
exit 0
''')

bug("P34-single-precision", "P34", [("pkg/geo/cpr_airborne_local_position.go", "\tlongitude := dLon * (m + lonCPR)\n", "\tlongitude := float64(float32(dLon) * float32(m+lonCPR))\n")],
    "a position far from the Greenwich meridian",
    "the longitude is computed in single precision: it is off by metres",
    '''worst := 0.0
for k := uint32(0); k < 131072; k++ {
	_, lon := geo.GetCPRAirborneLocalPosition(1000, k, 1, 175, false)
	m := math.Round((lon - float64(k)/131072*360/59) / (360.0/59))
	if d := math.Abs(lon - 360.0/59*(m+float64(k)/131072)); d > worst { worst = d }
}
if worst > 1e-9 { t.Fatal(worst) }
''', ("geo", "=math"))

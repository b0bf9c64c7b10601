CRC = "pkg/modes/reader/crc.go"
ref("crc-table",
    body(CRC, "func computeParity(", '''
func computeParity(data []byte) uint32 {
	crc := uint32(0)
	for _, b := range data {
		crc = (crc<<8 ^ crcTable[byte(crc>>16)^b]) & 0xFFFFFF
	}
	return crc
}

var crcTable = buildTable()

func buildTable() [256]uint32 {
	var t [256]uint32
	for i := range t {
		c := uint32(i) << 16
		for k := 0; k < 8; k++ {
			if c&0x800000 != 0 {
				c = c<<1 ^ 0xFFF409
			} else {
				c <<= 1
			}
		}
		t[i] = c & 0xFFFFFF
	}
	return t
}
'''), (CRC, "var crcPolynomial = []uint8{0xFF, 0xF4, 0x09}\n", ""))
ref("crc-word",
    body(CRC, "func computeParity(", '''
func computeParity(data []byte) uint32 {
	register := uint32(0)
	for i := range data {
		register ^= uint32(data[i]) << 16
		for bit := 0; bit < 8; bit++ {
			register <<= 1
			if register > 0xFFFFFF {
				register ^= generator
			}
		}
	}
	return register
}

const generator = 0x1FFF409
'''), (CRC, "var crcPolynomial = []uint8{0xFF, 0xF4, 0x09}\n", ""))
ref("crc-helpers",
    body(CRC, "func checkCRCDF11(", '''
func checkCRCDF11(
	data []byte,
	allowedInterrogatorIdentifiers map[common.ICAOAddress]bool) (common.ICAOAddress, error) {
	id := overlay(data, 4)
	if !isAllowed(allowedInterrogatorIdentifiers, id) {
		return 0, fmt.Errorf("the message parity resolves to an unknown Interrogator Identifier")
	}
	return id, nil
}

func overlay(data []byte, n int) common.ICAOAddress {
	parity := bitutils.Pack3Bytes(data[n], data[n+1], data[n+2])
	return common.ICAOAddress(computeParity(data[:n]) ^ parity)
}

func isAllowed(allowed map[common.ICAOAddress]bool, a common.ICAOAddress) bool {
	if len(allowed) == 0 {
		return true
	}
	_, found := allowed[a]
	return found
}
'''),
    body(CRC, "func checkCRCDF17And18(", '''
func checkCRCDF17And18(data []byte) (common.ICAOAddress, error) {
	if overlay(data, 11) != 0 {
		return 0, fmt.Errorf("the message does not have a valid CRC")
	}
	return common.ICAOAddress(bitutils.Pack3Bytes(data[1], data[2], data[3])), nil
}
'''),
    body(CRC, "func checkCRCOther(", '''
func checkCRCOther(
	data []byte,
	allowedAddresses map[common.ICAOAddress]bool) (common.ICAOAddress, error) {
	address := overlay(data, len(data)-3)
	if isAllowed(allowedAddresses, address) {
		return address, nil
	}
	return 0, fmt.Errorf("the message parity resolves to an unknown Address")
}
'''))
ref("read-message-map", ("pkg/modes/reader/reader.go", None, '''package reader

import (
	"errors"
	"fmt"

	"github.com/twuillemin/modes/pkg/modes/common"
	"github.com/twuillemin/modes/pkg/modes/messages"
)

type parser func(common.MessageData) (messages.ModeSMessage, error)

var parsers = map[byte]parser{
	0:  func(m common.MessageData) (messages.ModeSMessage, error) { return (messages.ParseDF0(m)) },
	4:  func(m common.MessageData) (messages.ModeSMessage, error) { return (messages.ParseDF4(m)) },
	5:  func(m common.MessageData) (messages.ModeSMessage, error) { return (messages.ParseDF5(m)) },
	11: func(m common.MessageData) (messages.ModeSMessage, error) { return (messages.ParseDF11(m)) },
	16: func(m common.MessageData) (messages.ModeSMessage, error) { return (messages.ParseDF16(m)) },
	17: func(m common.MessageData) (messages.ModeSMessage, error) { return (messages.ParseDF17(m)) },
	18: func(m common.MessageData) (messages.ModeSMessage, error) { return (messages.ParseDF18(m)) },
	19: func(m common.MessageData) (messages.ModeSMessage, error) { return (messages.ParseDF19(m)) },
	20: func(m common.MessageData) (messages.ModeSMessage, error) { return (messages.ParseDF20(m)) },
	21: func(m common.MessageData) (messages.ModeSMessage, error) { return (messages.ParseDF21(m)) },
	24: func(m common.MessageData) (messages.ModeSMessage, error) { return (messages.ParseDF24(m)) },
}

// ReadMessage reads a Mode S message
func ReadMessage(message []byte) (messages.ModeSMessage, error) {
	n := len(message)
	if n != 7 && n != 14 {
		return nil, errors.New("a Mode S message must be 7 or 14 bytes long")
	}
	format := message[0] >> 3
	data := common.MessageData{DownLinkFormat: format, FirstField: message[0] & 7, Payload: message[1 : n-3], Parity: message[n-3:]}
	key := format
	if key >= 24 {
		key = 24
	}
	parse, known := parsers[key]
	if !known {
		return nil, fmt.Errorf("the downlink format %v is not supported", format)
	}
	result, err := parse(data)
	if err != nil {
		return nil, err
	}
	return result, nil
}
'''))
ref("altitude-shuffle", body("pkg/modes/fields/altitude_code.go", "func ReadAltitude(", '''
func ReadAltitude(message common.MessageData) (int32, AltitudeReportMethod, error) {
	code := bitutils.Pack2Bytes(message.Payload[1], message.Payload[2]) & 0x1FFF
	switch {
	case code == 0:
		return 0, AltitudeCodeReportNotAvailable, nil
	case code&(1<<6) != 0:
		return 0, AltitudeCodeReportMetricUnits, nil
	case code&(1<<4) != 0:
		return altitude25(code), AltitudeCodeReport25FootIncrements, nil
	}
	bit := func(n uint) bool { return code>>n&1 == 1 }
	altitude, err := bitutils.GillhamToAltitude(false, bit(2), bit(0), bit(11), bit(9), bit(7), bit(5), bit(3), bit(1), bit(12), bit(10), bit(8))
	if err != nil {
		return 0, AltitudeCodeReportNotAvailable, errors.New("the Altitude field is malformed")
	}
	return altitude, AltitudeCodeReport100FootIncrements, nil
}

func altitude25(code uint16) int32 {
	high, middle, low := int32(code>>7), int32(code>>5&1), int32(code&0xF)
	n := high*32 + middle*16 + low
	return (n - 40) * 25
}
'''))
ref("identity-digits", body("pkg/modes/fields/identity.go", "func ReadIdentity(", '''
func ReadIdentity(message common.MessageData) Identity {
	code := uint32(message.Payload[1]&0x1f)<<8 | uint32(message.Payload[2])
	digit := func(one, two, four uint) uint32 {
		d := uint32(0)
		for k, p := range []uint{one, two, four} {
			d |= (code >> p & 1) << uint(k)
		}
		return d
	}
	a, b, c, d := digit(11, 9, 7), digit(5, 3, 1), digit(12, 10, 8), digit(4, 2, 0)
	return Identity{Identity: fmt.Sprintf("%d%d%d%d", a, b, c, d)}
}
'''), ("pkg/modes/fields/identity.go", '	"github.com/twuillemin/modes/pkg/bitutils"\n', ""))
ref("identity-bytes", body("pkg/modes/fields/identity.go", "func ReadIdentity(", '''
func ReadIdentity(message common.MessageData) Identity {
	identity := bitutils.Pack2Bytes(message.Payload[1]&0x1f, message.Payload[2])
	text := []byte("0000")
	for i, m := range [4][3]uint16{{0x0800, 0x0200, 0x0080}, {0x0020, 0x0008, 0x0002}, {0x1000, 0x0400, 0x0100}, {0x0010, 0x0004, 0x0001}} {
		for k, mask := range m {
			if identity&mask != 0 {
				text[i] += 1 << uint(k)
			}
		}
	}
	return Identity{Identity: string(text)}
}
'''), ("pkg/modes/fields/identity.go", 'import (\n	"fmt"\n', "import (\n"))
ref("identity-special-switch", body("pkg/modes/fields/identity.go", "func (identity Identity) ToString(", '''
func (identity Identity) ToString() string {
	special := map[string]string{
		"7700": " [Emergency]",
		"2000": " [Instruction Not Received]",
		"7600": " [Radiocommunication Failure]",
		"7500": " [Unlawful Interference]",
	}
	return identity.Identity + special[identity.Identity]
}
'''))
COMMB = "pkg/commb/reader.go"
ref("commb-loop", body(COMMB, "func ReadCommBMessage(", '''
func ReadCommBMessage(data []byte) ([]bds.Message, error) {
	if len(data) != 7 {
		return nil, errors.New("the data for Comm-B message must be 7 bytes long")
	}
	if message, err := bds00.ReadNoMessageAvailable(data); err == nil {
		return []bds.Message{message}, nil
	}
	for _, read := range unambiguous {
		if message, err := read(data); err == nil && message.CheckCoherency() == nil {
			return []bds.Message{message}, nil
		}
	}
	coherent := make([]bds.Message, 0, len(candidates))
	for _, read := range candidates {
		message, err := read(data)
		if err != nil || message.CheckCoherency() != nil {
			continue
		}
		coherent = append(coherent, message)
	}
	return coherent, nil
}

type readFunc func([]byte) (bds.Message, error)

var unambiguous = []readFunc{
	func(d []byte) (bds.Message, error) { return bds07.ReadStatus(d) },
	func(d []byte) (bds.Message, error) { return bds20.ReadAircraftIdentification(d) },
}

var candidates = []readFunc{
	func(d []byte) (bds.Message, error) { return bds10.ReadDataLinkCapabilityReport(d) },
	func(d []byte) (bds.Message, error) { return bds17.ReadCommonUsageGICBCapabilityReport(d) },
	func(d []byte) (bds.Message, error) { return bds30.ReadACASResolutionAdvisory(d) },
	func(d []byte) (bds.Message, error) { return bds40.ReadSelectedVerticalIntention(d) },
	func(d []byte) (bds.Message, error) { return bds44.ReadMeteorologicalRoutineAirReport(d) },
	func(d []byte) (bds.Message, error) { return bds45.ReadMeteorologicalHazardReport(d) },
	func(d []byte) (bds.Message, error) { return bds50.ReadTrackAndTurnReport(d) },
	func(d []byte) (bds.Message, error) { return bds60.ReadHeadingAndSpeedReport(d) },
}
'''))
ref("commb-helper", body(COMMB, "func ReadCommBMessage(", '''
func ReadCommBMessage(data []byte) ([]bds.Message, error) {
	if len(data) != 7 {
		return nil, errors.New("the data for Comm-B message must be 7 bytes long")
	}

	empty, err := bds00.ReadNoMessageAvailable(data)
	if err == nil {
		return []bds.Message{empty}, nil
	}
	status, err := bds07.ReadStatus(data)
	if err == nil && status.CheckCoherency() == nil {
		return []bds.Message{status}, nil
	}
	identification, err := bds20.ReadAircraftIdentification(data)
	if err == nil && identification.CheckCoherency() == nil {
		return []bds.Message{identification}, nil
	}

	var messages []bds.Message
	keep := func(message bds.Message, err error) {
		if err == nil && message.CheckCoherency() == nil {
			messages = append(messages, message)
		}
	}
	m10, err := bds10.ReadDataLinkCapabilityReport(data)
	keep(m10, err)
	m17, err := bds17.ReadCommonUsageGICBCapabilityReport(data)
	keep(m17, err)
	m30, err := bds30.ReadACASResolutionAdvisory(data)
	keep(m30, err)
	m40, err := bds40.ReadSelectedVerticalIntention(data)
	keep(m40, err)
	m44, err := bds44.ReadMeteorologicalRoutineAirReport(data)
	keep(m44, err)
	m45, err := bds45.ReadMeteorologicalHazardReport(data)
	keep(m45, err)
	m50, err := bds50.ReadTrackAndTurnReport(data)
	keep(m50, err)
	m60, err := bds60.ReadHeadingAndSpeedReport(data)
	keep(m60, err)
	if messages == nil {
		messages = []bds.Message{}
	}
	return messages, nil
}
'''))
MAIN = "cmd/main.go"
ref("cli-typeswitch", (MAIN, '''	switch messageModeS.GetDownLinkFormat() {
	case 16:
		postProcessMessage16(messageModeS.(*modeSMessages.MessageDF16))
	case 17:
		postProcessMessage17(messageModeS.(*modeSMessages.MessageDF17), readerLevel)
	case 18:
		postProcessMessage18(messageModeS.(*modeSMessages.MessageDF18), readerLevel)
	case 20:
		postProcessMessage20(messageModeS.(*modeSMessages.MessageDF20))
	case 21:
		postProcessMessage21(messageModeS.(*modeSMessages.MessageDF21))
	default:''', '''	switch m := messageModeS.(type) {
	case *modeSMessages.MessageDF16:
		postProcessMessage16(m)
	case *modeSMessages.MessageDF17:
		processADSBMessage(m.MessageExtendedSquitter, readerLevel)
	case *modeSMessages.MessageDF18:
		postProcessMessage18(m, readerLevel)
	case *modeSMessages.MessageDF20:
		processCommBMessage(m.MessageCommB)
	case *modeSMessages.MessageDF21:
		processCommBMessage(m.MessageCommB)
	default:'''),
    body(MAIN, "func postProcessMessage17(", ""), body(MAIN, "func postProcessMessage20(", ""), body(MAIN, "func postProcessMessage21(", ""))
ref("cli-println", body(MAIN, "func processCommBMessage(", '''
func processCommBMessage(data []byte) {
	fmt.Println(" -- Comm-B Information --")
	messages, err := commbReader.ReadCommBMessage(data)
	switch {
	case err != nil:
		fmt.Println(err)
	case len(messages) == 0:
		fmt.Println("Unknown message format")
	default:
		separator := ""
		for _, message := range messages {
			fmt.Print(separator)
			fmt.Println(message.ToString())
			separator = "-------------------------------\\n"
		}
	}
}
'''),
    body(MAIN, "func postProcessMessage18(", '''
func postProcessMessage18(messageDF18 *modeSMessages.MessageDF18, adsbVersion adsb.ADSBVersion) {
	switch messageDF18.ControlField {
	case modeSFields.ControlFieldADSB, modeSFields.ControlFieldADSBReserved:
		processADSBMessage(messageDF18.MessageExtendedSquitter, adsbVersion)
	case modeSFields.ControlFieldTISBFineFormat,
		modeSFields.ControlFieldTISBCoarseFormat,
		modeSFields.ControlFieldTISBReservedManagement,
		modeSFields.ControlFieldTISBRelayADSB:
		fmt.Printf(" -- TISB Information --\\nNot implemented\\n")
	}
}
'''))
ref("cli-level", body(MAIN, "func main(", '''
func main() {
	var fileName string
	var level int
	flag.StringVar(&fileName, "file", "", "the name of the file to be processed")
	flag.IntVar(&level, "adsb_reader_level", 0, "the version of ADSB reader 0, 1 or 2 to use (ADSB V0 by default)")
	flag.Parse()

	versions := []adsb.ADSBVersion{adsb.ADSBV0, adsb.ADSBV1, adsb.ADSBV2}
	if level < 0 || level >= len(versions) {
		panic(fmt.Sprintf("Unable to use the given ADSB level %v", level))
	}
	version := versions[level]

	lines := []string{}
	if fileName != "" {
		lines = readFile(fileName)
	} else if args := flag.Args(); len(args) > 0 {
		lines = args[:1]
	} else {
		fmt.Print("No data provided")
	}
	for i := 0; i < len(lines); i++ {
		processSingleLine(lines[i], version)
	}
}
'''))
GEO = "pkg/geo/cpr_common.go"
ref("geo-mod", body(GEO, "func mod(", '''
func mod(x float64, y float64) float64 {
	quotient := math.Floor(x / y)
	return x - quotient*y
}
'''),
    body(GEO, "func getNumberOfLongitude(", '''
func getNumberOfLongitude(lat float64) float64 {
	absolute := math.Abs(lat)
	switch {
	case absolute > 87:
		return 1
	case absolute == 87:
		return 2
	case absolute == 0:
		return 59
	}
	cosine := math.Cos(absolute * math.Pi / 180)
	numerator := 1 - math.Cos(math.Pi/2/Nz)
	return math.Floor(2 * math.Pi / math.Acos(1-numerator/(cosine*cosine)))
}
'''))
ref("geo-local-shared", body("pkg/geo/cpr_airborne_local_position.go", "func GetCPRAirborneLocalPosition(", '''
func GetCPRAirborneLocalPosition(
	cprLatitude uint32,
	cprLongitude uint32,
	referenceLatitude float64,
	referenceLongitude float64,
	isOdd bool) (float64, float64) {
	return localPosition(360, cprLatitude, cprLongitude, referenceLatitude, referenceLongitude, isOdd)
}

func localPosition(size float64, cprLatitude, cprLongitude uint32, referenceLatitude, referenceLongitude float64, isOdd bool) (float64, float64) {
	zones := 60.0
	if isOdd {
		zones--
	}
	latitude := nearest(referenceLatitude, float64(cprLatitude)/maxBinaryValue, size/zones)
	n := getNumberOfLongitude(latitude)
	if isOdd {
		n--
	}
	if n < 1 {
		n = 1
	}
	return latitude, nearest(referenceLongitude, float64(cprLongitude)/maxBinaryValue, size/n)
}

func nearest(reference, fraction, zone float64) float64 {
	index := math.Floor(reference/zone) + math.Floor(0.5+mod(reference, zone)/zone-fraction)
	return zone * (index + fraction)
}
'''),
    body("pkg/geo/cpr_surface_local_position.go", "func GetCPRSurfaceLocalPosition(", '''
func GetCPRSurfaceLocalPosition(
	cprLatitude uint32,
	cprLongitude uint32,
	referenceLatitude float64,
	referenceLongitude float64,
	isOdd bool,
) (float64, float64) {
	return localPosition(90, cprLatitude, cprLongitude, referenceLatitude, referenceLongitude, isOdd)
}
'''), ("pkg/geo/cpr_surface_local_position.go", 'import "math"\n', ""))
ref("geo-surface-loop", ("pkg/geo/cpr_surface_global_position.go", '''	// All the solutions are The three other possible solutions are
	longitudes := [4]float64{
		quadrantLongitude,
		quadrantLongitude + 90,
		quadrantLongitude + 180,
		quadrantLongitude + 270,
	}

	longitudesCorrected := [4]float64{}
	for i, longitude := range longitudes {
		longitudesCorrected[i] = mod((longitude+180), 360) - 180
	}

	distancesToRef := [4]float64{}
	for i, longitudeCorrected := range longitudesCorrected {
		distancesToRef[i] = math.Abs(mod(referenceLongitude-longitudeCorrected+180, 360) - 180)
	}

	smallestDistance := distancesToRef[0]
	minIndex := 0
	for i, distance := range distancesToRef {
		if distance < smallestDistance {
			smallestDistance = distance
			minIndex = i
		}
	}

	longitude := longitudesCorrected[minIndex]

	return latitude, longitude, nil
}
''', '''	return latitude, closestLongitude(quadrantLongitude, referenceLongitude), nil
}

func normalize(angle float64) float64 { return mod(angle+180, 360) - 180 }

func closestLongitude(quadrant, reference float64) float64 {
	best := normalize(quadrant)
	smallest := math.Abs(normalize(reference - best))
	for quarter := 1; quarter < 4; quarter++ {
		candidate := normalize(quadrant + 90*float64(quarter))
		if d := math.Abs(normalize(reference - candidate)); d < smallest {
			best, smallest = candidate, d
		}
	}
	return best
}
'''), ("pkg/geo/cpr_surface_global_position.go", '''	latitudeEvenFixed := latitudeEven
	if referenceLatitude < 0 {
		latitudeEvenFixed = latitudeEvenFixed - 90
	}

	latitudeOddFixed := latitudeOdd
	if referenceLatitude < 0 {
		latitudeOddFixed = latitudeOddFixed - 90
	}
''', '''	shift := 0.0
	if referenceLatitude < 0 {
		shift = -90
	}
	latitudeEvenFixed, latitudeOddFixed := latitudeEven+shift, latitudeOdd+shift
'''))
ref("geo-airborne-early", ("pkg/geo/cpr_airborne_global_position.go", '''	// Calculate the longitude zone size''', '''	if evenDataReceivedAfterOddData {
		n := math.Max(numberLongitude, 1)
		return latitude, signed(360 / n * (mod(m, n) + cprLongitudeEven)), nil
	}
	n := math.Max(numberLongitude-1, 1)
	return latitude, signed(360 / n * (mod(m, n) + cprLongitudeOdd)), nil
}

func signed(longitude float64) float64 {
	if longitude > 180 {
		return longitude - 360
	}
	return longitude
}

func unused(numberLongitude, m, latitude, cprLongitudeEven, cprLongitudeOdd float64, evenDataReceivedAfterOddData bool) (float64, float64, error) {
	// Calculate the longitude zone size'''))
ref("geo-airborne-error", ("pkg/geo/cpr_airborne_global_position.go", '''	if latitudeEven > 90 || latitudeOdd > 90 {''', '''	if math.Max(latitudeEven, latitudeOdd) > 90 {'''),
    ("pkg/geo/cpr_airborne_global_position.go", '''	latitude := 0.0
	if evenDataReceivedAfterOddData {
		latitude = latitudeEven
	} else {
		latitude = latitudeOdd
	}
''', '''	latitude := latitudeOdd
	if evenDataReceivedAfterOddData {
		latitude = latitudeEven
	}
'''))
ref("geo-distance", body("pkg/geo/ground_distance.go", "func ComputeGroundDistance(", '''
func ComputeGroundDistance(lat1, long1, lat2, long2 float64) float64 {
	const earthRadius = 6371000.0
	radians := func(degrees float64) float64 { return degrees * (math.Pi / 180) }
	haversine := func(angle float64) float64 {
		s := math.Sin(angle / 2)
		return s * s
	}
	a := haversine(radians(lat2-lat1)) + math.Cos(radians(lat1))*math.Cos(radians(lat2))*haversine(radians(long1-long2))
	if a > 1 {
		a = 1
	}
	return 2 * earthRadius * math.Asin(math.Sqrt(a))
}
'''))
V09 = "pkg/bds/bds09/airborne_velocity_ground_speed_normal.go"
ref("speed-helper", body(V09, "func (message AirborneVelocityGroundSpeedNormal) GetSpeed(", '''
func (message AirborneVelocityGroundSpeedNormal) GetSpeed() (uint32, error) {
	east, north, err := message.components()
	if err != nil {
		return 0, err
	}
	return uint32(math.Floor(math.Hypot(east, north))), nil
}

func (message AirborneVelocityGroundSpeedNormal) components() (float64, float64, error) {
	if message.VelocityEWStatus != fields.NVSRegular {
		return 0, 0, errors.New("velocity EW is not regular")
	}
	if message.VelocityNSStatus != fields.NVSRegular {
		return 0, 0, errors.New("velocity NS is not regular")
	}
	east, north := float64(message.VelocityEW), float64(message.VelocityNS)
	if message.DirectionEastWest == fields.DEWWest {
		east *= -1
	}
	if message.DirectionNorthSouth == fields.DNSSouth {
		north *= -1
	}
	return east, north, nil
}
'''), body(V09, "func (message AirborneVelocityGroundSpeedNormal) GetTrack(", '''
func (message AirborneVelocityGroundSpeedNormal) GetTrack() (float32, error) {
	east, north, err := message.components()
	if err != nil {
		return 0, err
	}
	track := math.Atan2(east, north) * 180 / math.Pi
	return float32(math.Mod(track+360, 360)), nil
}
'''))
B5 = "pkg/bds/bds50/"
ref("roll-helper", body(B5 + "fields/roll_angle.go", "func ReadRollAngle(", '''
func ReadRollAngle(data []byte) (bool, float32) {
	value := signed(data, 1, 10)
	return bit(data, 0), float32(value) * 45.0 / 256.0
}

func bit(data []byte, n uint) bool {
	return data[n/8]>>(7-n%8)&1 == 1
}

// signed reads size bits in two's complement
func signed(data []byte, first, size uint) int32 {
	value := int32(0)
	for n := first; n < first+size; n++ {
		value <<= 1
		if bit(data, n) {
			value++
		}
	}
	if bit(data, first) {
		value -= 1 << size
	}
	return value
}
'''), (B5 + "fields/roll_angle.go", '''
import (
	"github.com/twuillemin/modes/pkg/bitutils"
)
''', ""),
    body(B5 + "fields/track_angle_rate.go", "func ReadTrackAngleRate(", '''
func ReadTrackAngleRate(data []byte) (bool, float32) {
	return bit(data, 34), float32(signed(data, 35, 10)) / 32
}
'''), (B5 + "fields/track_angle_rate.go", 'import "github.com/twuillemin/modes/pkg/bitutils"\n', ""))
ref("roll-int8", body(B5 + "fields/roll_angle.go", "func ReadRollAngle(", '''
func ReadRollAngle(data []byte) (bool, float32) {
	all := int16(bitutils.Pack2Bytes(data[0], data[1])<<1) >> 6
	status := int8(data[0]) < 0
	angle := float32(all) * 45 / 256
	return status, angle
}
'''))
ref("coherency-table", body(B5 + "track_and_turn_report.go", "func (message TrackAndTurnReport) CheckCoherency(", '''
func (message TrackAndTurnReport) CheckCoherency() error {
	values := []struct {
		status bool
		given  bool
		name   string
	}{
		{message.RollAngleStatus, message.RollAngle != 0, "roll angle"},
		{message.TrueTrackAngleStatus, message.TrueTrackAngle != 0, "true track angle"},
		{message.GroundSpeedStatus, message.GroundSpeed != 0, "ground speed"},
		{message.TrackAngleRateStatus, message.TrackAngleRate != 0, "track angle rate"},
		{message.TrueAirSpeedStatus, message.TrueAirSpeed != 0, "true air speed"},
	}
	available := 0
	for _, v := range values {
		if v.status {
			available++
		}
	}
	if available == 0 {
		return errors.New("the message does not convey any information")
	}
	for _, v := range values {
		if v.given && !v.status {
			return fmt.Errorf("the %s status is set to false, but a %s value is given", v.name, v.name)
		}
	}
	switch {
	case math.Abs(float64(message.RollAngle)) > 50:
		return errors.New("the roll angle is too high (above 50 degrees)")
	case message.GroundSpeed > 600:
		return errors.New("the ground speed is too high (above 600 knots)")
	case message.TrueAirSpeed > 500:
		return errors.New("the true air speed is too high (above 500 knots)")
	case difference(message.GroundSpeed, message.TrueAirSpeed) > 200:
		return errors.New("the difference between true air speed and ground speed is too high (above 200 knots)")
	}
	return nil
}

func difference(a, b uint32) uint32 {
	if a < b {
		return b - a
	}
	return a - b
}
'''), (B5 + "track_and_turn_report.go", '	"fmt"\n', '	"fmt"\n	"math"\n'))
ref("report-builder", body(B5 + "track_and_turn_report.go", "func (message TrackAndTurnReport) ToString(", '''
func (message TrackAndTurnReport) ToString() string {
	var b strings.Builder
	line := func(label string, value interface{}) {
		fmt.Fprintf(&b, "%-39s%v\\n", label+":", value)
	}
	line("Message", message.GetRegister().ToString())
	line("Roll Angle Status", message.RollAngleStatus)
	line("Roll Angle (degrees)", message.RollAngle)
	line("True Track Angle Status", message.TrueTrackAngleStatus)
	line("True Track (degrees)", message.TrueTrackAngle)
	line("Ground Speed Status", message.GroundSpeedStatus)
	line("Ground Speed (knots)", message.GroundSpeed)
	line("Track Angle Rate Status", message.TrackAngleRateStatus)
	line("Track Angle Rate (degrees/second)", message.TrackAngleRate)
	line("True Air Speed Status", message.TrueAirSpeedStatus)
	line("True Air Speed (knots)", message.TrueAirSpeed)
	return strings.TrimSuffix(b.String(), "\\n")
}
'''), (B5 + "track_and_turn_report.go", '	"fmt"\n', '	"fmt"\n	"strings"\n'))
ref("report-lines", body(B5 + "track_and_turn_report.go", "func (message TrackAndTurnReport) ToString(", '''
func (message TrackAndTurnReport) ToString() string {
	lines := []string{
		"Message:                               " + message.GetRegister().ToString(),
		fmt.Sprint("Roll Angle Status:                     ", message.RollAngleStatus),
		fmt.Sprintf("Roll Angle (degrees):                  %v", message.RollAngle),
		"True Track Angle Status:               " + strconv.FormatBool(message.TrueTrackAngleStatus),
		fmt.Sprintf("True Track (degrees):                  %v", message.TrueTrackAngle),
		fmt.Sprintf("Ground Speed Status:                   %t", message.GroundSpeedStatus),
		fmt.Sprintf("Ground Speed (knots):                  %d", message.GroundSpeed),
		fmt.Sprintf("Track Angle Rate Status:               %v", message.TrackAngleRateStatus),
		fmt.Sprintf("Track Angle Rate (degrees/second):     %v", message.TrackAngleRate),
		fmt.Sprintf("True Air Speed Status:                 %v", message.TrueAirSpeedStatus),
		"True Air Speed (knots):                " + strconv.Itoa(int(message.TrueAirSpeed)),
	}
	return strings.Join(lines, "\\n")
}
'''), (B5 + "track_and_turn_report.go", '	"fmt"\n', '	"fmt"\n	"strconv"\n	"strings"\n'))
MOV = "pkg/bds/bds06/fields/movement.go"
ref("movement-table", body(MOV, "func (movementStatus MovementStatus) getSpeed(", '''
func (movementStatus MovementStatus) getSpeed() float32 {
	if movementStatus <= MSAircraftStopped || movementStatus > MSAboveMaximum {
		return 0
	}
	for _, r := range ranges {
		if movementStatus >= r.first {
			return r.speed + float32(movementStatus-r.first)*r.step
		}
	}
	return 0
}

var ranges = []struct {
	first       MovementStatus
	speed, step float32
}{
	{124, 175, 0},
	{109, 100, 5},
	{94, 70, 2},
	{39, 15, 1},
	{13, 2, 0.5},
	{9, 1, 0.25},
	{2, 0.125, 0.125},
}
'''))
ref("movement-switch", body(MOV, "func (movementStatus MovementStatus) getSpeed(", '''
func (movementStatus MovementStatus) getSpeed() float32 {
	n := float32(movementStatus)
	switch s := movementStatus; {
	case s < 2:
		return 0
	case s < 9:
		return n/8 - 0.125
	case s < 13:
		return (n - 5) / 4
	case s < 39:
		return (n - 9) / 2
	case s < 94:
		return n - 24
	case s < 109:
		return 2*n - 118
	case s < 124:
		return 5 * (n - 89)
	case s == MSAboveMaximum:
		return 175
	}
	return 0
}
'''))
ref("label-array", body(MOV, "func (movementStatus MovementStatus) ToString(", '''
func (movementStatus MovementStatus) ToString() string {
	if text, ok := movementTexts[movementStatus]; ok {
		return text
	}
	return fmt.Sprintf("%d - valid", int(movementStatus))
}

var movementTexts = map[MovementStatus]string{
	MSNoInformation:        "0 - no information available",
	MSAircraftStopped:      "1 - aircraft stopped (ground speed < 0.2315 km/h (0.125 kt))",
	MSAboveMaximum:         "124 - ground speed ≥ 324.1 km/h (175 kt)",
	MSReservedDecelerating: "125 - reserved for A/C Decelerating",
	MSReservedAccelerating: "126 - reserved for A/C Accelerating",
	MSReservedBackingUp:    "127 - reserved for Backing Up",
}
'''), body("pkg/bds/bds08/fields/aircraft_category_set_c.go", "func (category AircraftCategorySetC) ToString(", '''
func (category AircraftCategorySetC) ToString() string {
	names := [...]string{"No aircraft category information", "Surface vehicle - emergency vehicle", "Surface vehicle - service vehicle", "Fixed ground or tethered obstruction"}
	text := "Unknown code"
	switch {
	case int(category) < len(names):
		text = names[category]
	case category <= ACSCReserved4:
		text = "Reserved"
	}
	return fmt.Sprintf("%v - %s", byte(category), text)
}
'''))
ID8 = "pkg/bds/bds08/aircraft_identification_and_category.go"
ref("callsign-loop", (ID8, '''	codes := make([]byte, 8)
	codes[0] = (data[1] & 0xFC) >> 2
	codes[1] = (data[1]&0x03)<<4 + (data[2]&0xF0)>>4
	codes[2] = (data[2]&0x0F)<<2 + (data[3]&0xC0)>>6
	codes[3] = data[3] & 0x3F
	codes[4] = (data[4] & 0xFC) >> 2
	codes[5] = (data[4]&0x03)<<4 + (data[5]&0xF0)>>4
	codes[6] = (data[5]&0x0F)<<2 + (data[6]&0xC0)>>6
	codes[7] = data[6] & 0x3F

	// Convert the codes to actual char
	chars := make([]byte, 8)
	for i, code := range codes {
		chars[i] = encoding.IdentificationCharacterCoding[code]
	}
''', '''	packed := uint64(0)
	for _, b := range data[1:] {
		packed = packed<<8 | uint64(b)
	}
	var text strings.Builder
	for shift := uint(48); shift > 0; {
		shift -= 6
		text.WriteByte(encoding.IdentificationCharacterCoding[packed>>shift&0x3F])
	}
'''), (ID8, "string(chars)", "text.String()"), (ID8, '''	var category fields.AircraftCategory
	switch formatTypeCode {
	case 1:
		category = fields.AircraftCategorySetD(data[0] & 0x07)
		break
	case 2:
		category = fields.AircraftCategorySetC(data[0] & 0x07)
		break
	case 3:
		category = fields.AircraftCategorySetB(data[0] & 0x07)
		break
	default:
		category = fields.AircraftCategorySetA(data[0] & 0x07)
		break
	}
''', '''	category := readCategory(formatTypeCode, data[0]&7)
'''), (ID8, '''// ReadAircraftIdentificationAndCategory reads''', '''func readCategory(format, code byte) fields.AircraftCategory {
	if format == 1 {
		return fields.AircraftCategorySetD(code)
	}
	if format == 2 {
		return fields.AircraftCategorySetC(code)
	}
	if format == 3 {
		return fields.AircraftCategorySetB(code)
	}
	return fields.AircraftCategorySetA(code)
}

// ReadAircraftIdentificationAndCategory reads'''), (ID8, '''strings.ContainsAny(message.Identification, "#")''', '''strings.IndexByte(message.Identification, '#') >= 0'''),
 (ID8, '''	err := message.Category.CheckCoherency()
	if err != nil {
		return err
	}

	return nil
''', '''	return message.Category.CheckCoherency()
'''))
GIL = "pkg/bitutils/gillham.go"
ref("gillham-loop", body(GIL, "func GillhamToAltitude(", '''
func GillhamToAltitude(d1, d2, d4, a1, a2, a4, b1, b2, b4, c1, c2, c4 bool) (int32, error) {
	fiveHundred := decode(d1, d2, d4, a1, a2, a4, b1, b2, b4)
	hundred := decode(c1, c2, c4)
	switch hundred {
	case 0, 5, 6:
		return 0, errors.New("the bits C1 to to C4 are incorrect")
	case 7:
		hundred = 5
	}
	if fiveHundred&1 == 1 {
		hundred = 6 - hundred
	}
	return 100*(5*fiveHundred+hundred) - 1300, nil
}

// decode converts a reflected binary code
func decode(gray ...bool) int32 {
	value, parity := int32(0), false
	for _, g := range gray {
		parity = parity != g
		value *= 2
		if parity {
			value++
		}
	}
	return value
}
'''), (GIL, '''func grayToBinary(num uint16) uint16 {
	temp := uint16(0)

	temp = num ^ (num >> 8)
	temp ^= temp >> 4
	temp ^= temp >> 2
	temp ^= temp >> 1

	return temp
}
''', ""))
AR = "pkg/adsb/reader/reader.go"
ref("adsb-chain", (AR, '''	switch formatTypeCode {
	case 0:
		if data[2]&0x0F == 0 && data[3] == 0 && data[4] == 0 && data[5] == 0 && data[6] == 0 {
			return no_position_information.ReadNoPositionInformation(adsbLevel, data)
		} else {
			return airborne_position.ReadAirbornePositionType0(adsbLevel, data)
		}
	case 1, 2, 3, 4:
		return aircraft_identification_and_category.ReadAircraftIdentificationAndCategory(adsbLevel, data)
	case 5, 6, 7, 8:
		return surface_position.ReadSurfacePosition(adsbLevel, data, nicSupplementA, nicSupplementC)
	case 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 21, 22:
		return airborne_position.ReadAirbornePosition(adsbLevel, data, nicSupplementA)
	case 19:
		return airborne_velocity.ReadAirborneVelocity(adsbLevel, data)
''', '''	if formatTypeCode == 0 {
		if hasNoPosition(data) {
			return no_position_information.ReadNoPositionInformation(adsbLevel, data)
		}
		return airborne_position.ReadAirbornePositionType0(adsbLevel, data)
	}
	if formatTypeCode <= 4 {
		return aircraft_identification_and_category.ReadAircraftIdentificationAndCategory(adsbLevel, data)
	}
	if formatTypeCode <= 8 {
		return surface_position.ReadSurfacePosition(adsbLevel, data, nicSupplementA, nicSupplementC)
	}
	if formatTypeCode == 19 {
		return airborne_velocity.ReadAirborneVelocity(adsbLevel, data)
	}
	if formatTypeCode <= 22 {
		return airborne_position.ReadAirbornePosition(adsbLevel, data, nicSupplementA)
	}

	switch formatTypeCode {
'''), (AR, "// ReadADSBMessage reads and parse", '''func hasNoPosition(data []byte) bool {
	rest := data[2] & 0x0F
	for _, b := range data[3:] {
		rest |= b
	}
	return rest == 0
}

// ReadADSBMessage reads and parse'''))
AP2 = "pkg/adsb/airborne_position/airborne_position_v2.go"
ref("nic-table", body(AP2, "func getHCRAndNICForV2(", '''
func getHCRAndNICForV2(formatTypeCode byte,
	nicSupplementA bool,
	nicSupplementB fields.NavigationIntegrityCodeSupplementB) (fields.HorizontalContainmentRadiusV2, byte) {
	if formatTypeCode == 11 && !nicSupplementA {
		return fields.HCRBaroV2RcLowerThan0Point1NM, 8
	}
	if formatTypeCode == 13 && !nicSupplementA && nicSupplementB != fields.NICBOne {
		return fields.HCRBaroV2RcLowerThan0Point5NM, 6
	}
	if formatTypeCode == 13 && !nicSupplementA {
		return fields.HCRBaroV2RcLowerThan0Point3NM, 6
	}
	if formatTypeCode == 16 && !nicSupplementA {
		return fields.HCRBaroV2RcLowerThan8NM, 2
	}
	if c, found := integrity[formatTypeCode]; found {
		return c.radius, c.category
	}
	return fields.HCRGNSSV2RcGreaterThan25MOrUnknown, 0
}

type containment struct {
	radius   fields.HorizontalContainmentRadiusV2
	category byte
}

var integrity = map[byte]containment{
	9:  {fields.HCRBaroV2RcLowerThan7Point5M, 11},
	10: {fields.HCRBaroV2RcLowerThan25M, 10},
	11: {fields.HCRBaroV2RcLowerThan75M, 9},
	12: {fields.HCRBaroV2RcLowerThan0Point2NM, 7},
	13: {fields.HCRBaroV2RcLowerThan0Point6NM, 6},
	14: {fields.HCRBaroV2RcLowerThan1Point0NM, 5},
	15: {fields.HCRBaroV2RcLowerThan2NM, 4},
	16: {fields.HCRBaroV2RcLowerThan4NM, 3},
	17: {fields.HCRBaroV2RcLowerThan20NM, 1},
	18: {fields.HCRBaroV2RcGreaterThan20NM, 0},
	20: {fields.HCRGNSSV2RcLowerThan7Point5M, 11},
	21: {fields.HCRGNSSV2RcLowerThan25M, 10},
}
'''))
RA = "pkg/acas/ra/resolution_advisory.go"
ref("ra-switch", (RA, '''	threatIdentity := ""
	if message.ThreatTypeIndicator == fields.ThreatTypeNoIdentity {
		threatIdentity = ""
	} else if message.ThreatTypeIndicator == fields.ThreatTypeModeS {
		if message.ThreatIdentityAddress != nil {
			threatIdentity = fmt.Sprintf("\\nThreat Mode-S Identity:                          %v", message.ThreatIdentityAddress.ToString())
		} else {
			threatIdentity = fmt.Sprintf("\\nThreat Mode-S Identity:                          [Error: Missing Mod-S Address]")
		}
	} else if message.ThreatTypeIndicator == fields.ThreatTypeAltitudeRangeBearing {
		if message.ThreatIdentityAltitude != nil {
			threatIdentity = fmt.Sprintf("\\nThreat Altitude:                                 %v", message.ThreatIdentityAltitude.ToString())
		} else {
			threatIdentity = fmt.Sprintf("\\nThreat Altitude:                                 [Error: Missing Threat Altitude]")
		}
		if message.ThreatIdentityRange != nil {
			threatIdentity += fmt.Sprintf("\\nThreat Range:                                    %v", message.ThreatIdentityRange.ToString())
		} else {
			threatIdentity += fmt.Sprintf("\\nThreat Range:                                   [Error: Missing Threat Range]")
		}
		if message.ThreatIdentityBearing != nil {
			threatIdentity += fmt.Sprintf("\\nThreat Bearing:                                  %v", message.ThreatIdentityBearing.ToString())
		} else {
			threatIdentity += fmt.Sprintf("\\nThreat Bearing:                                 [Error: Missing Threat Bearing]")
		}
	}
''', '''	threatIdentity := message.describeThreat()
'''), (RA, "// ReadResolutionAdvisory reads", '''func (message ResolutionAdvisory) describeThreat() string {
	var lines []string
	add := func(label string, value string) {
		lines = append(lines, "\\n"+label+value)
	}
	switch message.ThreatTypeIndicator {
	case fields.ThreatTypeModeS:
		text := "[Error: Missing Mod-S Address]"
		if a := message.ThreatIdentityAddress; a != nil {
			text = a.ToString()
		}
		add("Threat Mode-S Identity:                          ", text)
	case fields.ThreatTypeAltitudeRangeBearing:
		if message.ThreatIdentityAltitude == nil {
			add("Threat Altitude:                                 ", "[Error: Missing Threat Altitude]")
		} else {
			add("Threat Altitude:                                 ", message.ThreatIdentityAltitude.ToString())
		}
		if message.ThreatIdentityRange == nil {
			add("Threat Range:                                   ", "[Error: Missing Threat Range]")
		} else {
			add("Threat Range:                                    ", message.ThreatIdentityRange.ToString())
		}
		if message.ThreatIdentityBearing == nil {
			add("Threat Bearing:                                 ", "[Error: Missing Threat Bearing]")
		} else {
			add("Threat Bearing:                                  ", message.ThreatIdentityBearing.ToString())
		}
	}
	return strings.Join(lines, "")
}

// ReadResolutionAdvisory reads'''), (RA, '	"fmt"\n', '	"fmt"\n	"strings"\n'),
 (RA, '''	var threatIdentityAddress *fields.ThreatIdentityAddress = nil
	var threatIdentityAltitude *fields.ThreatIdentityAltitude = nil
	var threatIdentityRange *fields.ThreatIdentityRange = nil
	var threatIdentityBearing *fields.ThreatIdentityBearing = nil

	threatTypeIndicator := fields.ReadThreatTypeIndicator(data)

	if threatTypeIndicator == fields.ThreatTypeModeS {
		var address = fields.ReadThreatIdentityAddress(data)
		threatIdentityAddress = &address
	} else if threatTypeIndicator == fields.ThreatTypeAltitudeRangeBearing {
		var threatAltitude, err = fields.ReadThreatIdentityAltitude(data)
		var threatRange = fields.ReadThreatIdentityRange(data)
		var threatBearing = fields.ReadThreatIdentityBearing(data)
		threatIdentityAltitude = &threatAltitude
		threatIdentityRange = &threatRange
		threatIdentityBearing = &threatBearing

		if err != nil {
			return nil, err
		}
	}

	return &ResolutionAdvisory{
		ActiveRA:                fields.ReadActiveResolutionAdvisory(data),
		RAComplement:            fields.ReadRAComplement(data),
		RATerminatedIndicator:   fields.ReadRATerminatedIndicator(data),
		MultipleThreatEncounter: fields.ReadMultipleThreatEncounter(data),
		ThreatTypeIndicator:     threatTypeIndicator,
		ThreatIdentityAddress:   threatIdentityAddress,
		ThreatIdentityAltitude:  threatIdentityAltitude,
		ThreatIdentityRange:     threatIdentityRange,
		ThreatIdentityBearing:   threatIdentityBearing,
	}, nil
''', '''	result := &ResolutionAdvisory{
		ActiveRA:                fields.ReadActiveResolutionAdvisory(data),
		RAComplement:            fields.ReadRAComplement(data),
		RATerminatedIndicator:   fields.ReadRATerminatedIndicator(data),
		MultipleThreatEncounter: fields.ReadMultipleThreatEncounter(data),
		ThreatTypeIndicator:     fields.ReadThreatTypeIndicator(data),
	}
	switch result.ThreatTypeIndicator {
	case fields.ThreatTypeModeS:
		address := fields.ReadThreatIdentityAddress(data)
		result.ThreatIdentityAddress = &address
	case fields.ThreatTypeAltitudeRangeBearing:
		altitude, err := fields.ReadThreatIdentityAltitude(data)
		if err != nil {
			return nil, err
		}
		r := fields.ReadThreatIdentityRange(data)
		bearing := fields.ReadThreatIdentityBearing(data)
		result.ThreatIdentityAltitude = &altitude
		result.ThreatIdentityRange = &r
		result.ThreatIdentityBearing = &bearing
	}
	return result, nil
'''))
PR = "pkg/common/printable.go"
ref("prefix-replace", body(PR, "func PrefixMultiLine(", '''
func PrefixMultiLine(lines string, prefix string) string {
	return prefix + strings.Replace(lines, "\\n", "\\n"+prefix, -1)
}
'''))
ref("prefix-append", body(PR, "func PrefixMultiLine(", '''
func PrefixMultiLine(lines string, prefix string) string {
	result := ""
	for i, line := range strings.Split(lines, "\\n") {
		if i > 0 {
			result += "\\n"
		}
		result += prefix + line
	}
	return result
}
'''))
A05 = "pkg/bds/bds05/fields/altitude.go"
ref("altitude05", body(A05, "func ReadAltitude(", '''
func ReadAltitude(data []byte) (int32, AltitudeSource, AltitudeReportMethod, error) {
	source := readSource(data[0] >> 3)
	code := bitutils.Pack2Bytes(data[1], data[2]) >> 4
	if code&0x10 == 0x10 {
		n := code>>5<<4 | code&0x0F
		return (int32(n) - 40) * 25, source, AltitudeReport25FootIncrements, nil
	}
	var bits [12]bool
	for i := range bits {
		bits[i] = code>>uint(11-i)&1 == 1
	}
	feet, err := bitutils.GillhamToAltitude(
		false, bits[9], bits[11],
		bits[1], bits[3], bits[5],
		bits[6], bits[8], bits[10],
		bits[0], bits[2], bits[4])
	if err != nil {
		return 0, 0, 0, errors.New("the Altitude field is malformed")
	}
	return feet, source, AltitudeReport100FootIncrements, nil
}

func readSource(format byte) AltitudeSource {
	switch format {
	case 20, 21, 22:
		return AltitudeGNSS
	}
	return AltitudeBarometric
}
'''))
VE = "pkg/bds/bds09/fields/velocity_ew.go"
ref("velocity-shared", body(VE, "func ReadVelocityEWNormal(", '''
func ReadVelocityEWNormal(data []byte) (uint16, NumericValueStatus) {
	return scaled(bitutils.Pack2Bytes(data[1], data[2])&0x3FF, 1, 1023)
}

func scaled(raw, factor, maximum uint16) (value uint16, status NumericValueStatus) {
	status = NVSRegular
	switch raw {
	case 0:
		status = NVSNoInformation
	case 1023:
		value, status = maximum, NVSMaximum
	default:
		value = (raw - 1) * factor
	}
	return
}
'''), body(VE, "func ReadVelocityEWSupersonic(", '''
func ReadVelocityEWSupersonic(data []byte) (uint16, NumericValueStatus) {
	return scaled(bitutils.Pack2Bytes(data[1], data[2])&0x3FF, 4, 4088)
}
'''))
D4 = "pkg/modes/messages/df4.go"
ref("df-helper", (D4, '''	if message.DownLinkFormat != 4 {
		return nil, errors.New("DF4 message must have a DownLinkFormat of 4")
	}

	if len(message.Payload) != 3 {
		return nil, errors.New("DF4 message must be 7 bytes long")
	}

	altitude, altitudeReportMethod, err := fields.ReadAltitude(message)
	if err != nil {
		return nil, errors.New("the field Altitude is not readable")
	}

	return &MessageDF4{
		MessageData:          message,
		FlightStatus:         fields.ReadFlightStatus(message),
		DownlinkRequest:      fields.ReadDownlinkRequest(message),
		UtilityMessage:       fields.ReadUtilityMessage(message),
		AltitudeReportMethod: altitudeReportMethod,
		Altitude:             altitude,
	}, nil
''', '''	if err := expect(message, 4, 3); err != nil {
		return nil, err
	}

	result := new(MessageDF4)
	result.MessageData = message
	var err error
	result.Altitude, result.AltitudeReportMethod, err = fields.ReadAltitude(message)
	if err != nil {
		return nil, fmt.Errorf("the field Altitude is not readable: %v", err)
	}
	result.UtilityMessage = fields.ReadUtilityMessage(message)
	result.DownlinkRequest = fields.ReadDownlinkRequest(message)
	result.FlightStatus = fields.ReadFlightStatus(message)
	return result, nil
'''), (D4, "// ParseDF4 parses", '''func expect(message common.MessageData, format byte, size int) error {
	if message.DownLinkFormat != format {
		return fmt.Errorf("DF%v message must have a DownLinkFormat of %v", format, format)
	}
	if len(message.Payload) != size {
		return errors.New("the message does not have the right length")
	}
	return nil
}

// ParseDF4 parses'''))
ref("cli-stdout", (MAIN, 'fmt.Printf("-------------------------------\\n")', 'fmt.Fprintln(os.Stdout, "-------------------------------")'),
    (MAIN, 'fmt.Printf("Unknown message format\\n")', 'os.Stdout.WriteString("Unknown message format\\n")'))

# ---- second series ----------------------------------------------------------------------------
ref("cli-writer", (MAIN, None, None))
REFS.pop()
def cliwriter():
    s = open("/repo/cmd/main.go").read()
    i = s.index("// processSingleLine")
    t = s[i:]
    t = t.replace("fmt.Printf(", "fmt.Fprintf(out, ").replace("fmt.Println(", "fmt.Fprintln(out, ")
    import re
    t = re.sub(r"\nfunc (\w+)\(", r"\nfunc \1(out io.Writer, ", t)
    for f in ("postProcessMessage16", "postProcessMessage17", "postProcessMessage18", "postProcessMessage20", "postProcessMessage21", "processADSBMessage", "processCommBMessage"):
        t = re.sub(r"\t%s\(" % f, "\t%s(out, " % f, t)
    h = s[:i].replace("processSingleLine(", "processSingleLine(os.Stdout, ").replace('\t"fmt"\n', '\t"fmt"\n\t"io"\n')
    return h + t
ref("cli-writer", (MAIN, None, cliwriter()))
def clistruct():
    s = open("/repo/cmd/main.go").read()
    import re
    s = s.replace("processSingleLine(str, adsbReaderLevel)", "p.line(str)").replace("processSingleLine(flag.Arg(0), adsbReaderLevel)", "p.line(flag.Arg(0))")
    s = s.replace("\t// If a filename is given, use it and quit\n", "\tp := &processor{level: adsbReaderLevel}\n\n\t// If a filename is given, use it and quit\n")
    s = s.replace("func processSingleLine(str string, readerLevel adsb.ADSBVersion) {", "func (p *processor) line(str string) {")
    s = s.replace("(*modeSMessages.MessageDF17), readerLevel)", "(*modeSMessages.MessageDF17), p.level)").replace("(*modeSMessages.MessageDF18), readerLevel)", "(*modeSMessages.MessageDF18), p.level)")
    return s + "\n// processor prints what the lines mean\ntype processor struct {\n\tlevel adsb.ADSBVersion\n}\n"
ref("cli-struct", (MAIN, None, clistruct()))
ref("cli-handlers", (MAIN, '''	switch messageModeS.GetDownLinkFormat() {
	case 16:
		postProcessMessage16(messageModeS.(*modeSMessages.MessageDF16))
	case 17:
		postProcessMessage17(messageModeS.(*modeSMessages.MessageDF17), readerLevel)
	case 18:
		postProcessMessage18(messageModeS.(*modeSMessages.MessageDF18), readerLevel)
	case 20:
		postProcessMessage20(messageModeS.(*modeSMessages.MessageDF20))
	case 21:
		postProcessMessage21(messageModeS.(*modeSMessages.MessageDF21))
	default:
		fmt.Printf("\\n")
	}
''', '''	handlers := map[int]func(){
		16: func() { postProcessMessage16(messageModeS.(*modeSMessages.MessageDF16)) },
		17: func() { postProcessMessage17(messageModeS.(*modeSMessages.MessageDF17), readerLevel) },
		18: func() { postProcessMessage18(messageModeS.(*modeSMessages.MessageDF18), readerLevel) },
		20: func() { postProcessMessage20(messageModeS.(*modeSMessages.MessageDF20)) },
		21: func() { postProcessMessage21(messageModeS.(*modeSMessages.MessageDF21)) },
	}
	if handler, ok := handlers[messageModeS.GetDownLinkFormat()]; ok {
		handler()
	} else {
		fmt.Println()
	}
'''))
ref("cli-levels", (MAIN, '''	adsbReaderLevel := adsb.ADSBV0
	switch *adsbReaderLevelParam {
	case 0:
		adsbReaderLevel = adsb.ADSBV0
	case 1:
		adsbReaderLevel = adsb.ADSBV1
	case 2:
		adsbReaderLevel = adsb.ADSBV2
	default:
		panic(fmt.Sprintf("Unable to use the given ADSB level %v", *adsbReaderLevelParam))
	}
''', '''	levels := []adsb.ADSBVersion{adsb.ADSBV0, adsb.ADSBV1, adsb.ADSBV2}
	if *adsbReaderLevelParam < 0 || *adsbReaderLevelParam >= len(levels) {
		panic(fmt.Sprintf("Unable to use the given ADSB level %v", *adsbReaderLevelParam))
	}
	adsbReaderLevel := levels[*adsbReaderLevelParam]
'''))
ref("cli-separator", (MAIN, '''		for i, message := range messages {
			if i > 0 {
				fmt.Printf("-------------------------------\\n")
			}
			fmt.Printf("%v\\n", message.ToString())
		}
''', '''		texts := make([]string, 0, len(messages))
		for _, message := range messages {
			texts = append(texts, message.ToString()+"\\n")
		}
		fmt.Print(strings.Join(texts, strings.Repeat("-", 31)+"\\n"))
'''), (MAIN, '	"os"\n', '	"os"\n	"strings"\n'))
ref("cli-tisb", body(MAIN, "func postProcessMessage18(", '''
func postProcessMessage18(messageDF18 *modeSMessages.MessageDF18, adsbVersion adsb.ADSBVersion) {

	switch messageDF18.ControlField {
	case modeSFields.ControlFieldADSB, modeSFields.ControlFieldADSBReserved:
		processADSBMessage(messageDF18.MessageExtendedSquitter, adsbVersion)
	case modeSFields.ControlFieldTISBFineFormat, modeSFields.ControlFieldTISBCoarseFormat,
		modeSFields.ControlFieldTISBReservedManagement, modeSFields.ControlFieldTISBRelayADSB:
		fmt.Print(" -- TISB Information --\\nNot implemented\\n")
	}
}
'''))
ref("cli-collect", (MAIN, '''		result = append(result, scanner.Text())
''', '''		line := scanner.Text()
		result = append(result, line)
'''), (MAIN, "	result := make([]string, 0, 1000)\n", "	var result []string\n"), (MAIN, '''	defer func() {
		errClose := file.Close()
		if errClose != nil {
			log.Fatal(errClose)
		}
	}()
''', '''	defer closeFile(file)
'''), (MAIN, "func readFile(", '''func closeFile(file *os.File) {
	if err := file.Close(); err != nil {
		log.Fatal(err)
	}
}

func readFile('''))
B10 = "pkg/bds/bds10/data_link_capability_report.go"
ref("bds10-rules", (B10, '''	// First byte is simply the BDS format 0001 0000
	if data[0] != 0x10 {
		return nil, errors.New("the first byte of data is not 0x10")
	}

	// Bits 10 to 14 are reserved and must be 0
	if data[1]&0x7C != 0 {
		return nil, errors.New("the bits 10 to 14 are reserved and must be 0")
	}
''', '''	for _, rule := range rules {
		if data[rule.index]&rule.mask != rule.value {
			return nil, errors.New(rule.text)
		}
	}
'''), (B10, "func ReadDataLinkCapabilityReport(", '''var rules = []struct {
	index       int
	mask, value byte
	text        string
}{
	{0, 0xFF, 0x10, "the first byte of data is not 0x10"},
	{1, 0x7C, 0x00, "the bits 10 to 14 are reserved and must be 0"},
}

func ReadDataLinkCapabilityReport('''))
B17 = "pkg/bds/bds17/common_usage_gicb_capability_report.go"
def b17(word):
    import re
    s = open("/repo/" + B17).read()
    def f(m):
        n = int(m.group(1)) * 8 + 8 - int(m.group(3))
        return "bit(%d)," % n
    s = re.sub(r"\(data\[(\d)\]&0x(\w\w)\)>>(\d) != 0,", f, s)
    if word:
        s = s.replace("	return &CommonUsageGICBCapabilityReport{\n", "	word := binary.BigEndian.Uint64(append([]byte{0}, data...))\n	bit := func(n uint) bool { return word>>(56-n)&1 == 1 }\n\n	return &CommonUsageGICBCapabilityReport{\n")
        s = s.replace('import (\n', 'import (\n\t"encoding/binary"\n', 1)
    else:
        s = s.replace("	return &CommonUsageGICBCapabilityReport{\n", "	bit := func(n int) bool {\n		n--\n		return data[n/8]&(0x80>>uint(n%8)) != 0\n	}\n\n	return &CommonUsageGICBCapabilityReport{\n")
    return s
def fixb17(s):
    return s
ref("bds17-bit", (B17, None, b17(False)))
ref("bds17-word", (B17, None, b17(True)))
ref("bds17-reserved", (B17, '''	for i := uint(4); i < 7; i++ {
		if data[i] != 0 {
			return nil, errors.New("the bits 33 to 56 are reserved and must be 0")
		}
	}
''', '''	if !bytes.Equal(data[4:], []byte{0, 0, 0}) {
		return nil, errors.New("the bits 33 to 56 are reserved and must be 0")
	}
'''), (B17, 'import (\n', 'import (\n	"bytes"\n'))
B44 = "pkg/bds/bds44/meteorological_routine_air_report.go"
ref("bds44-fallback", body(B44, "func ReadMeteorologicalRoutineAirReport(", '''
func ReadMeteorologicalRoutineAirReport(data []byte) (report MeteorologicalRoutineAirReport, err error) {

	if len(data) != 7 {
		err = fmt.Errorf("the data must be 7 bytes long (%v given)", len(data))
		return
	}

	source := fields.ReadSource(data)
	if source == fields.SourceInvalid {
		return ReadMeteorologicalRoutineAirReportV1(data)
	}
	if source > fields.SourceVORDME {
		return nil, fmt.Errorf("the field SubType must be comprised between 0 and 1 included, got %v", source)
	}

	// The V2 first
	if message, errV2 := ReadMeteorologicalRoutineAirReportV2(data); errV2 == nil {
		report = message
		return
	}
	return ReadMeteorologicalRoutineAirReportV0(data)
}
'''))
ICE = "pkg/bds/bds45/fields/icing.go"
ref("bds45-word", (ICE, None, '''package fields

// hazard reads a status bit and the two bits that follow it, from the given bit (the first is 0)
func hazard(data []byte, first uint) (bool, HazardLevel) {
	var word uint64
	for _, b := range data {
		word = word<<8 + uint64(b)
	}
	group := word >> (53 - first) & 7
	return group > 3, HazardLevel(group % 4)
}

func ReadIcingV0(data []byte) (bool, HazardLevel) {
	return hazard(data, 9)
}

func ReadIcingV1(data []byte) (status bool, level HazardLevel) {
	status, level = hazard(data, 6)
	return
}
'''))
SAT = "pkg/bds/bds45/fields/static_air_temperature.go"
ref("bds45-int16", body(SAT, "func ReadStaticAirTemperatureV0(", '''
func ReadStaticAirTemperatureV0(data []byte) (bool, float32) {
	raw := int16(uint16(data[2])<<8|uint16(data[3])) >> 6
	return data[1]%2 == 1, float32(raw) / 4
}
'''))
LAT = "pkg/bds/bds05/fields/encoded_latitude.go"
ref("latitude-binary", (LAT, None, '''package fields

import "encoding/binary"

const mask17 = 1<<17 - 1

// ReadEncodedLatitude reads the EncodedLatitude from a 56 bits data field
func ReadEncodedLatitude(data []byte) uint32 {
	return binary.BigEndian.Uint32(data[1:5]) >> 1 & mask17
}
'''))
ref("latitude-loop", (LAT, None, '''package fields

// ReadEncodedLatitude reads the EncodedLatitude from a 56 bits data field
func ReadEncodedLatitude(data []byte) (latitude uint32) {
	for bit := uint(22); bit < 39; bit++ {
		latitude *= 2
		if data[bit/8]<<(bit%8)&0x80 > 0 {
			latitude++
		}
	}
	return latitude
}
'''))
B60 = "pkg/bds/bds60/heading_and_speed_report.go"
ref("coherency-closure", body(B60, "func (message HeadingAndTrackReport) CheckCoherency(", '''
func (message HeadingAndTrackReport) CheckCoherency() error {
	var problems []string
	forbid := func(condition bool, text string) {
		if condition {
			problems = append(problems, text)
		}
	}

	forbid(!anyOf(message.MagneticHeadingStatus, message.IndicatedAirSpeedStatus, message.MachStatus, message.BarometricAltitudeRateStatus, message.InitialVerticalVelocityStatus),
		"the message does not convey any information")
	forbid(!message.MagneticHeadingStatus && message.MagneticHeading != 0, "the magnetic heading status is set to false, but a magnetic heading value is given")
	forbid(!message.IndicatedAirSpeedStatus && message.IndicatedAirSpeed != 0, "the indicated air speed status is set to false, but a indicated air speed value is given")
	forbid(!message.MachStatus && message.Mach != 0, "the mach status is set to false, but a mach value is given")
	forbid(!message.BarometricAltitudeRateStatus && message.BarometricAltitudeRate != 0, "the barometric altitude rate status is set to false, but a barometric altitude rate value is given")
	forbid(!message.InitialVerticalVelocityStatus && message.InitialVerticalVelocity != 0, "the initial vertical velocity status is set to false, but a initial vertical velocity value is given")
	forbid(message.IndicatedAirSpeed > 500, "the indicated air speed is too high (above 500 knots)")
	forbid(message.Mach > 1.0, "the mach is too high (above 1.0)")
	forbid(outside(message.BarometricAltitudeRate, 6000), "the barometric altitude rate is to high or to low (above or under 6000fpm)")
	forbid(outside(message.InitialVerticalVelocity, 6000), "the initial vertical velocity is to high or to low (above or under 6000fpm)")

	if len(problems) > 0 {
		return errors.New(problems[0])
	}
	return nil
}

func anyOf(conditions ...bool) bool {
	for _, c := range conditions {
		if c {
			return true
		}
	}
	return false
}

func outside(value int32, limit int32) bool {
	if value < 0 {
		value = -value
	}
	return value > limit
}
'''))
SA = "pkg/bds/bds62/fields/selected_altitude.go"
ref("selected-altitude", body(SA, "func ReadSelectedAltitude(", '''
func ReadSelectedAltitude(data []byte) (altitude uint16, status NumericValueStatus) {
	raw := bitutils.Pack2Bytes(data[1], data[2]) << 1 >> 5

	status = NVSNoInformation
	if raw > 0 {
		raw--
		altitude, status = raw<<5, NVSRegular
	}
	return
}
'''))
TIM = "pkg/bds/bds05/fields/time.go"
ref("label-map", (TIM, '''	switch time {
	case TNotSynchronized:
		return "0 - not synchronized to UTC"
	case TSynchronizedUTC:
		return "1 - synchronized to UTC"
	default:
		return fmt.Sprintf("%v - Unknown code", time)
	}
''', '''	if text, ok := timeTexts[time]; ok {
		return text
	}
	return fmt.Sprintf("%v - Unknown code", time)
'''), (TIM, "// ToString returns", '''var timeTexts = map[Time]string{
	TNotSynchronized: "0 - not synchronized to UTC",
	TSynchronizedUTC: "1 - synchronized to UTC",
}

// ToString returns'''))
ref("label-strconv", (TIM, '''	switch time {
	case TNotSynchronized:
		return "0 - not synchronized to UTC"
	case TSynchronizedUTC:
		return "1 - synchronized to UTC"
	default:
		return fmt.Sprintf("%v - Unknown code", time)
	}
''', '''	text := "Unknown code"
	if time <= TSynchronizedUTC {
		text = [...]string{"not synchronized to UTC", "synchronized to UTC"}[time]
	}
	return strconv.Itoa(int(time)) + " - " + text
'''), (TIM, 'import "fmt"', 'import "strconv"'))
SP1 = "pkg/adsb/surface_position/surface_position_v1.go"
ref("nic-map", body(SP1, "func getHCRAndNICForV1(", '''
type radius struct {
	hcr fields.HorizontalContainmentRadiusV1
	nic byte
}

func getHCRAndNICForV1(formatTypeCode byte, nicSupplementA bool) (fields.HorizontalContainmentRadiusV1, byte) {
	known := map[byte]radius{
		5: {fields.HCRV1RcLowerThan7Point5M, 11},
		6: {fields.HCRV1RcLowerThan25M, 10},
		7: {fields.HCRV1RcLowerThan0Point1NM, 8},
	}
	if nicSupplementA {
		known[7] = radius{fields.HCRV1RcLowerThan75M, 9}
	}
	r, ok := known[formatTypeCode]
	if !ok {
		r = radius{hcr: fields.HCRV1RcGreaterThan0Point1NM}
	}
	return r.hcr, r.nic
}
'''))
D11 = "pkg/modes/messages/df11.go"
ref("df11-check", (D11, '''	if message.DownLinkFormat != 11 {
		return nil, errors.New("DF11 message must have a DownLinkFormat of 11")
	}
	if len(message.Payload) != 3 {
		return nil, errors.New("DF11 message must be 7 bytes long")
	}

	return &MessageDF11{
		MessageData:      message,
		Capability:       fields.ReadCapability(message),
		AddressAnnounced: fields.ReadAddressAnnounced(message),
	}, nil
''', '''	if err := checkFormat(message, 11, 7); err != nil {
		return nil, err
	}

	result := new(MessageDF11)
	result.MessageData = message
	result.Capability = fields.ReadCapability(message)
	result.AddressAnnounced = fields.ReadAddressAnnounced(message)
	return result, nil
'''), (D11, 'import (\n	"errors"\n', 'import (\n'), (D11, "// ParseDF11 parses", '''// checkFormat checks the format and the total length
func checkFormat(message common.MessageData, format uint8, length int) error {
	switch {
	case message.DownLinkFormat != format:
		return fmt.Errorf("DF%d message must have a DownLinkFormat of %d", format, format)
	case len(message.Payload)+4 != length:
		return fmt.Errorf("DF%d message must be %d bytes long", format, length)
	}
	return nil
}

// ParseDF11 parses'''))
D17 = "pkg/modes/messages/df17.go"
ref("df17-embed", (D17, '''	return &MessageDF17{
		MessageData:             message,
		Capability:              fields.ReadCapability(message),
		AddressAnnounced:        fields.ReadAddressAnnounced(message),
		MessageExtendedSquitter: fields.ReadMessageExtendedSquitter(message),
	}, nil
''', '''	df := MessageDF17{MessageData: message}
	df.fill(message)
	return &df, nil
'''), (D17, "// ParseDF17 parses", '''func (message *MessageDF17) fill(data common.MessageData) {
	defer func() { message.Capability = fields.ReadCapability(data) }()
	message.AddressAnnounced = fields.ReadAddressAnnounced(data)
	message.MessageExtendedSquitter = fields.ReadMessageExtendedSquitter(data)
}

// ParseDF17 parses'''), (D17, '''	if message.DownLinkFormat != 17 {
		return nil, errors.New("DF17 message must have a DownLinkFormat of 17")
	}
	if len(message.Payload) != 10 {
		return nil, errors.New("DF17 message must be 14 bytes long")
	}
''', '''	if message.DownLinkFormat != 17 {
		return nil, errFormat17
	} else if len(message.Payload) != 10 {
		return nil, errLength17
	}
'''), (D17, "// MessageDF17 is", '''var (
	errFormat17 = errors.New("DF17 message must have a DownLinkFormat of 17")
	errLength17 = errors.New("DF17 message must be 14 bytes long")
)

// MessageDF17 is'''))
B61 = "pkg/bds/bds61/aircraft_status_emergency.go"
ref("emergency-or", (B61, '''	for i := uint(3); i < 7; i++ {
		if data[i] != 0 {
			return nil, errors.New("the bits 25 to 56 are expected to be 0")
		}
	}
''', '''	rest := byte(0)
	for _, b := range data[3:] {
		rest |= b
	}
	if rest != 0 {
		return nil, errors.New("the bits 25 to 56 are expected to be 0")
	}
'''), (B61, "bitutils.Pack2Bytes(byte1, byte2)", "uint16(byte1)*256 + uint16(byte2)"), (B61, '	"github.com/twuillemin/modes/pkg/bitutils"\n', ""))
B65 = "pkg/bds/bds65/aircraft_operational_status.go"
ref("bds65-readers", (B65, '''	switch adsbLevel {
	case 0:
		return ReadAircraftOperationalStatusADSB0(data)
	case 1:
		switch subType {
		case 0:
			return ReadAircraftOperationalStatusAirborneADSB1(data)
		case 1:
			return ReadAircraftOperationalStatusSurfaceADSB1(data)
		default:
			return nil, fmt.Errorf("the field SubType must be comprised between 0 and 1 included, got %v", subType)
		}
	case 2:
		switch subType {
		case 0:
			return ReadAircraftOperationalStatusAirborneADSB2(data)
		case 1:
			return ReadAircraftOperationalStatusSurfaceADSB2(data)
		default:
			return nil, fmt.Errorf("the field SubType must be comprised between 0 and 1 included, got %v", subType)
		}
	default:
		return nil, fmt.Errorf("the field VersionNumber must be comprised between 0 and 2 included, got %v", subType)
''', '''	if adsbLevel > 2 {
		return nil, fmt.Errorf("the field VersionNumber must be comprised between 0 and 2 included, got %v", subType)
	}
	if adsbLevel > 0 && subType > 1 {
		return nil, fmt.Errorf("the field SubType must be comprised between 0 and 1 included, got %v", subType)
	}

	switch key := adsbLevel<<4 | subType; {
	case adsbLevel == 0:
		return ReadAircraftOperationalStatusADSB0(data)
	case key == 0x10:
		return ReadAircraftOperationalStatusAirborneADSB1(data)
	case key == 0x11:
		return ReadAircraftOperationalStatusSurfaceADSB1(data)
	case key == 0x20:
		return ReadAircraftOperationalStatusAirborneADSB2(data)
	default:
		return ReadAircraftOperationalStatusSurfaceADSB2(data)
'''))
THA = "pkg/acas/ra/fields/threat_identity_altitude.go"
SPD = "pkg/bds/bds09/airborne_velocity_ground_speed_normal.go"
def track():
    s = open("/repo/" + SPD).read()
    i = s.index("func (message AirborneVelocityGroundSpeedNormal) GetTrack(")
    j = s.index("\n}\n", i) + 3
    return s[i:j]
REGF = "pkg/bds/bds40/fields/barometric_pressure.go"
ref("pressure-float64", body(REGF, "func ReadBarometricPressure(", '''
func ReadBarometricPressure(data []byte) (status bool, pressure float32) {
	const unit = 0.1
	raw := uint16(data[3]&0x1F)<<7 + uint16(data[4])>>1
	status = data[3]>>5&1 == 1
	pressure = float32(raw)*unit + 8e2
	return
}
'''), (REGF, 'import "github.com/twuillemin/modes/pkg/bitutils"\n', ""))

# ---- third series: loops, library functions and literals written otherwise ---------------------
ID2 = "pkg/bds/bds20/aircraft_identification.go"
PR = "pkg/common/printable.go"
ref("zero-equal", ("pkg/bds/bds00/no_message_available.go", '''	for i := uint(0); i < 7; i++ {
		if data[i] != 0 {
			return nil, errors.New("bits 1 to 56 must be zero")
		}
	}
''', '''	if !bytes.Equal(data, make([]byte, 7)) {
		return nil, errors.New("bits 1 to 56 must be zero")
	}
'''), ("pkg/bds/bds00/no_message_available.go", '\t"errors"\n', '\t"bytes"\n\t"errors"\n'))
ref("zero-or", ("pkg/bds/bds07/status.go", '''	for i := uint(1); i < 7; i++ {
		if data[i] != 0 {
			return nil, errors.New("the bits 9 to 56 are reserved and must be 0")
		}
	}
''', '''	reserved := byte(0)
	for _, b := range data[1:] {
		reserved |= b
	}
	if reserved > 0 {
		return nil, errors.New("the bits 9 to 56 are reserved and must be 0")
	}
'''))
ref("zero-sum", ("pkg/bds/bds07/status.go", '''	for i := uint(1); i < 7; i++ {
		if data[i] != 0 {
			return nil, errors.New("the bits 9 to 56 are reserved and must be 0")
		}
	}
''', '''	sum := 0
	for i := 6; i > 0; i-- {
		sum += int(data[i])
	}
	if sum != 0 {
		return nil, errors.New("the bits 9 to 56 are reserved and must be 0")
	}
'''))
ref("zero-bigendian", ("pkg/bds/bds61/aircraft_status_no_information.go", '''	for i := uint(2); i < 7; i++ {
		if data[i] != 0 {
			return nil, errors.New("the bits 17 to 56 are expected to be 0")
		}
	}
''', '''	if binary.BigEndian.Uint32(data[3:]) != 0 || data[2] != 0 {
		return nil, errors.New("the bits 17 to 56 are expected to be 0")
	}
'''), ("pkg/bds/bds61/aircraft_status_no_information.go", '\t"errors"\n', '\t"encoding/binary"\n\t"errors"\n'))
ref("zero-helper", ("pkg/bds/bds61/aircraft_status_no_information.go", '''	for i := uint(2); i < 7; i++ {
		if data[i] != 0 {
			return nil, errors.New("the bits 17 to 56 are expected to be 0")
		}
	}
''', '''	if !allZero(data[2:]) {
		return nil, errors.New("the bits 17 to 56 are expected to be 0")
	}
'''), ("pkg/bds/bds61/aircraft_status_no_information.go", "// ReadAircraftStatusNoInformation", '''func allZero(bytes []byte) bool {
	for len(bytes) > 0 {
		if bytes[0] != 0 {
			return false
		}
		bytes = bytes[1:]
	}
	return true
}

// ReadAircraftStatusNoInformation'''))
DTE = "pkg/bds/bds10/fields/dte_sub_address_statuses.go"
ref("dte-binary", body(DTE, "func (dss DTESubAddressStatuses) ToString(", '''
func (dss DTESubAddressStatuses) ToString() string {
	return strings.Join(strings.Split(fmt.Sprintf("%016b", uint16(dss)), ""), ", ")
}
'''))
ref("dte-down", body(DTE, "func (dss DTESubAddressStatuses) ToString(", '''
func (dss DTESubAddressStatuses) ToString() string {
	text := ""
	for mask := DTESubAddressStatuses(0x8000); mask != 0; mask >>= 1 {
		if text != "" {
			text += ", "
		}
		if dss&mask != 0 {
			text += "1"
		} else {
			text += "0"
		}
	}
	return text
}
'''), (DTE, '\t"fmt"\n', ""), (DTE, '\t"strings"\n', ""))
ref("dte-itoa", (DTE, '''fmt.Sprintf("%d", dteStatus)''', '''strconv.Itoa(int(dteStatus))'''), (DTE, '\t"fmt"\n', ""), (DTE, '\t"strings"\n', '\t"strconv"\n\t"strings"\n'))
ref("acas-copy", ("pkg/modes/fields/message_acas.go", '''	for i := 0; i < 7; i++ {
		data[i] = message.Payload[i+3]
	}
''', '''	copy(data, message.Payload[3:])
'''))
ref("acas-append", ("pkg/modes/fields/message_acas.go", '''	data := make([]byte, 7)

	for i := 0; i < 7; i++ {
		data[i] = message.Payload[i+3]
	}

	return data
''', '''	return append(MessageACAS(nil), message.Payload[3:10]...)
'''))
ref("acas-array", ("pkg/modes/fields/message_acas.go", '''	data := make([]byte, 7)

	for i := 0; i < 7; i++ {
		data[i] = message.Payload[i+3]
	}

	return data
''', '''	var data [7]byte
	copy(data[:], message.Payload[3:10])
	return data[:]
'''))
ref("callsign-array", (ID2, "chars := make([]byte, 8)", "var chars [8]byte"), (ID2, "string(chars)", "string(chars[:])"))
ref("callsign-concat", (ID2, '''	chars := make([]byte, 8)
	for i, code := range codes {
		chars[i] = encoding.IdentificationCharacterCoding[code]
	}
''', '''	chars := ""
	for i := 0; i < len(codes); i++ {
		chars += string(encoding.IdentificationCharacterCoding[codes[i]])
	}
'''), (ID2, "string(chars)", "chars"))
ref("callsign-runes", (ID2, '''	chars := make([]byte, 8)
	for i, code := range codes {
		chars[i] = encoding.IdentificationCharacterCoding[code]
	}
''', '''	var chars []rune
	for _, code := range codes {
		chars = append(chars, rune(encoding.IdentificationCharacterCoding[code]))
	}
'''))
AC = "pkg/modes/fields/altitude_code.go"
ref("altitude-split", (AC, '''	// Get the raw altitude code
	altitudeCode := uint16(message.Payload[1]&0x1f)<<8 + uint16(message.Payload[2])
''', '''	altitudeCode := readAltitudeCode(message)
'''), (AC, '''		n := uint16(0)
		n |= (altitudeCode & 0x1F80) >> 2
		n |= (altitudeCode & 0x0020) >> 1
		n |= altitudeCode & 0x000F

		altitude := 25*int32(n) - 1000

		return altitude, AltitudeCodeReport25FootIncrements, nil
''', '''		return altitude25Foot(altitudeCode), AltitudeCodeReport25FootIncrements, nil
'''), (AC, "// ToString returns", '''func readAltitudeCode(message common.MessageData) uint16 {
	return bitutils.Pack2Bytes(message.Payload[1], message.Payload[2]) & 0x1FFF
}

func altitude25Foot(code uint16) int32 {
	high, mid, low := code>>7, code>>5&1, code&0xF
	return int32((high*32+mid*16+low)*5)*5 - 1000
}

// ToString returns'''))
ref("altitude-switch", (AC, '''	if altitudeCode == 0 {
		return 0, AltitudeCodeReportNotAvailable, nil
	}

	// Get the M bit
	mBit := (altitudeCode & 0x0040) != 0

	// If altitude reported in metric units
	if mBit {
		// Not specified for now
		return 0, AltitudeCodeReportMetricUnits, nil
	}

	// Get the Q bit
	qBit := (altitudeCode & 0x0010) != 0

	// If altitude reported 25-foot increments
	if qBit {
''', '''	switch {
	case altitudeCode == 0:
		return 0, AltitudeCodeReportNotAvailable, nil
	case altitudeCode&0x0040 == 0x0040:
		return 0, AltitudeCodeReportMetricUnits, nil
	case altitudeCode>>4%2 == 1:
'''))
ref("altitude-xor-err", (AC, '''	altitude, err := bitutils.GillhamToAltitude(false, d2, d4, a1, a2, a4, b1, b2, b4, c1, c2, c4)
	if err != nil {
		return 0, AltitudeCodeReportNotAvailable, errors.New("the Altitude field is malformed")
	}

	return altitude, AltitudeCodeReport100FootIncrements, nil
''', '''	if altitude, err := bitutils.GillhamToAltitude(false, d2, d4, a1, a2, a4, b1, b2, b4, c1, c2, c4); err == nil {
		return altitude, AltitudeCodeReport100FootIncrements, nil
	}
	return 0, AltitudeCodeReportNotAvailable, fmt.Errorf("the Altitude field is malformed (%013b)", altitudeCode)
'''), (AC, '\t"errors"\n', ""))
CO = "pkg/geo/cpr_common.go"
ref("nl-early", (CO, '''	if lat == 0 {
		return 59
	} else if math.Abs(lat) == 87 {
		return 2
	} else if math.Abs(lat) > 87 {
		return 1
	}

	a := 1 - math.Cos(math.Pi/(2*Nz))
	b := math.Pow(math.Cos(math.Pi/180.0*math.Abs(lat)), 2.0)
	nl := 2 * math.Pi / (math.Acos(1 - a/b))

	return math.Floor(nl)
''', '''	lat = math.Abs(lat)
	switch {
	case lat > 87:
		return 1
	case lat == 87:
		return 2
	case lat == 0:
		return 59
	}
	c := math.Cos(lat * math.Pi / 180)
	return math.Floor(2 * math.Pi / math.Acos(1-(1-math.Cos(math.Pi/30))/(c*c)))
'''))
GA = "pkg/geo/cpr_airborne_global_position.go"
GS = "pkg/geo/cpr_surface_global_position.go"
ref("geo-normalize", (GA, '''	if latitudeEven >= 270 {
		latitudeEven -= 360
	}

	if latitudeOdd >= 270 {
		latitudeOdd -= 360
	}
''', '''	latitudeEven, latitudeOdd = wrap(latitudeEven), wrap(latitudeOdd)
'''), (GA, "// GetCPRAirborneGlobalPosition returns", '''func wrap(latitude float64) float64 {
	if latitude < 270 {
		return latitude
	}
	return latitude - 360
}

// GetCPRAirborneGlobalPosition returns'''))
ref("geo-zones", (GA, '''	nEven := math.Max(numberLongitude-0, 1)
	nOdd := math.Max(numberLongitude-1, 1)
''', '''	nEven, nOdd := numberLongitude, numberLongitude-1
	if nOdd < 1 {
		nOdd = 1
	}
'''))
ref("geo-int-zones", (GA, '''	nEven := math.Max(numberLongitude-0, 1)
	nOdd := math.Max(numberLongitude-1, 1)
''', '''	nEven := math.Max(numberLongitude, 1)
	nOdd := 1.0
	if numberLongitude > 2 {
		nOdd = numberLongitude - 1
	}
'''))
ref("geo-solution-loop", (GS, '''	smallestDistance := distancesToRef[0]
	minIndex := 0
	for i, distance := range distancesToRef {
		if distance < smallestDistance {
			smallestDistance = distance
			minIndex = i
		}
	}
''', '''	minIndex := 0
	for i := 1; i < 4; i++ {
		if distancesToRef[i] < distancesToRef[minIndex] {
			minIndex = i
		}
	}
'''))
ref("geo-solution-one-loop", (GS, '''	longitudesCorrected := [4]float64{}
	for i, longitude := range longitudes {
		longitudesCorrected[i] = mod((longitude+180), 360) - 180
	}

	distancesToRef := [4]float64{}
	for i, longitudeCorrected := range longitudesCorrected {
		distancesToRef[i] = math.Abs(mod(referenceLongitude-longitudeCorrected+180, 360) - 180)
	}

	smallestDistance := distancesToRef[0]
	minIndex := 0
	for i, distance := range distancesToRef {
		if distance < smallestDistance {
			smallestDistance = distance
			minIndex = i
		}
	}

	longitude := longitudesCorrected[minIndex]
''', '''	longitude, best := 0.0, math.Inf(1)
	for i, candidate := range longitudes {
		candidate = mod(candidate+180, 360) - 180
		distance := math.Abs(mod(referenceLongitude-candidate+180, 360) - 180)
		if i == 0 || distance < best {
			longitude, best = candidate, distance
		}
	}
'''))
ref("geo-reference-first", (GS, '''	// If the reference in the southern hemisphere latitude solution
	latitudeEvenFixed := latitudeEven
	if referenceLatitude < 0 {
		latitudeEvenFixed = latitudeEvenFixed - 90
	}

	latitudeOddFixed := latitudeOdd
	if referenceLatitude < 0 {
		latitudeOddFixed = latitudeOddFixed - 90
	}
''', '''	offset := 0.0
	if referenceLatitude < 0 {
		offset = 90
	}
	latitudeEvenFixed, latitudeOddFixed := latitudeEven-offset, latitudeOdd-offset
'''))
GD = "pkg/geo/ground_distance.go"
ref("distance-radians", (GD, '''	phi1 := lat1 * math.Pi / 180.0
	phi2 := lat2 * math.Pi / 180.0

	deltaPhi := (lat2 - lat1) * math.Pi / 180.0
	deltaLambda := (long2 - long1) * math.Pi / 180.0

	a := math.Pow(math.Sin(deltaPhi/2.0), 2) + math.Cos(phi1)*math.Cos(phi2)*math.Pow(math.Sin(deltaLambda/2.0), 2)
''', '''	radians := func(degrees float64) float64 { return degrees * (math.Pi / 180) }
	haversine := func(angle float64) float64 {
		s := math.Sin(angle / 2)
		return s * s
	}

	a := haversine(radians(lat2-lat1)) + math.Cos(radians(lat2))*math.Cos(radians(lat1))*haversine(radians(long2-long1))
'''))
ref("distance-asin", (GD, "c := 2 * math.Atan2(math.Sqrt(a), math.Sqrt(1-a))", "c := 2 * math.Asin(math.Sqrt(a))"))
ref("distance-if", (GD, "	a = math.Min(a, 1)\n", "	if a > 1 {\n\t\ta = 1\n\t}\n"))
CB = "pkg/commb/reader.go"
ref("commb-filter", (CB, '''	coherentMessages := make([]bds.Message, 0, len(messages))
	for _, message := range messages {
		if message.CheckCoherency() == nil {
			coherentMessages = append(coherentMessages, message)
		}
	}

	return coherentMessages, nil
''', '''	coherentMessages := messages[:0]
	for i := 0; i < len(messages); i++ {
		if messages[i].CheckCoherency() != nil {
			continue
		}
		coherentMessages = append(coherentMessages, messages[i])
	}

	return coherentMessages, nil
'''))
CRC = "pkg/modes/reader/crc.go"
ref("crc-range", (CRC, '''	for i := 0; i < crcLength; i++ {
		crc[i] = data[i]
	}
''', '''	copy(crc, data)
'''), (CRC, '''			for b := 0; b < crcLength; b++ {
				crc[b] ^= crcPolynomial[b]
			}
''', '''			for b, p := range crcPolynomial {
				crc[b] ^= p
			}
'''), (CRC, '''		byteIdx := (crcLength*8 + i) / 8
		bitShift := uint(7 - (i % 8))
''', '''		byteIdx := crcLength + i>>3
		bitShift := uint(7 - i&7)
'''))
ref("crc-nested", (CRC, '''	for i := 0; i < len(data)*8; i++ {
''', '''	for i, n := 0, 8*len(data); i != n; i++ {
'''), (CRC, '''		crc[0] <<= 1
		for b := 1; b < crcLength; b++ {
			crc[b-1] |= (crc[b] >> 7) & 0x1
			crc[b] <<= 1
		}
''', '''		crc[0] = crc[0]<<1 | crc[1]>>7
		crc[1] = crc[1]<<1 | crc[2]>>7
		crc[2] *= 2
'''))
ref("geo-odd-zones", (GA, "numberLongitude := numberLongitudeEven", "numberLongitude := numberLongitudeOdd"))
ref("geo-surface-int-zones", (GS, '''	nEven := math.Max(numberLongitude-0, 1)
	nOdd := math.Max(numberLongitude-1, 1)
''', '''	nEven := numberLongitude
	nOdd := 1.0
	if numberLongitude >= 2 {
		nOdd = numberLongitude - 1
	}
'''))
ref("geo-swap-zones", (GA, "if numberLongitudeEven != numberLongitudeOdd {", "if delta := numberLongitudeOdd - numberLongitudeEven; delta < 0 || delta > 0 {"))

BDS20 = "pkg/bds/bds20/aircraft_identification.go"
ref("ident-strings-map", (BDS20, '''	// Convert the codes to actual char
	chars := make([]byte, 8)
	for i, code := range codes {
		chars[i] = encoding.IdentificationCharacterCoding[code]
	}

	return &AircraftIdentification{
		Identification: string(chars),
	}, nil
''', '''	return &AircraftIdentification{
		Identification: strings.Map(func(code rune) rune {
			return rune(encoding.IdentificationCharacterCoding[code])
		}, string(codes)),
	}, nil
'''))
ref("ident-bytes-map", (BDS20, '''	// Convert the codes to actual char
	chars := make([]byte, 8)
	for i, code := range codes {
		chars[i] = encoding.IdentificationCharacterCoding[code]
	}

	return &AircraftIdentification{
		Identification: string(chars),
	}, nil
''', '''	for i := len(codes) - 1; i >= 0; i-- {
		codes[i] = encoding.IdentificationCharacterCoding[codes[i]]
	}

	var text bytes.Buffer
	text.Write(codes)
	return &AircraftIdentification{Identification: text.String()}, nil
'''), (BDS20, '	"errors"\n', '	"bytes"\n	"errors"\n'))
ref("ident-contains-index", (BDS20, 'strings.ContainsAny(message.Identification, "#")', 'strings.IndexByte(message.Identification, \'#\') != -1'))
ref("ident-contains-count", (BDS20, 'strings.ContainsAny(message.Identification, "#")', 'strings.Count(message.Identification, "#") > 0'))
ref("ident-contains-rune", (BDS20, 'strings.ContainsAny(message.Identification, "#")', 'strings.ContainsRune(message.Identification, \'#\')'))
ref("ident-contains-func", (BDS20, 'strings.ContainsAny(message.Identification, "#")', 'strings.IndexFunc(message.Identification, func(c rune) bool { return c == \'#\' }) >= 0'))
ref("ident-contains-loop", (BDS20, '''	if strings.ContainsAny(message.Identification, "#") {
		return errors.New("field Identification contains a non valid character")
	}
''', '''	for _, c := range message.Identification {
		if c == '#' {
			return errors.New("field Identification contains a non valid character")
		}
	}
'''), (BDS20, '	"strings"\n', ''))
BDS00 = "pkg/bds/bds00/no_message_available.go"
ZERO = '''	for i := uint(0); i < 7; i++ {
		if data[i] != 0 {
			return nil, errors.New("bits 1 to 56 must be zero")
		}
	}
'''
ref("zero-bytes-equal", (BDS00, ZERO, '''	if !bytes.Equal(data, make([]byte, len(data))) {
		return nil, errors.New("bits 1 to 56 must be zero")
	}
'''), (BDS00, '	"errors"\n', '	"bytes"\n	"errors"\n'))
ref("zero-bytes-count", (BDS00, ZERO, '''	if bytes.Count(data, []byte{0}) != len(data) {
		return nil, errors.New("bits 1 to 56 must be zero")
	}
'''), (BDS00, '	"errors"\n', '	"bytes"\n	"errors"\n'))
ref("zero-bytes-trim", (BDS00, ZERO, '''	if len(bytes.Trim(data, "\\x00")) != 0 {
		return nil, errors.New("bits 1 to 56 must be zero")
	}
'''), (BDS00, '	"errors"\n', '	"bytes"\n	"errors"\n'))
ref("zero-compare-string", (BDS00, ZERO, '''	if string(data) != "\\x00\\x00\\x00\\x00\\x00\\x00\\x00" {
		return nil, errors.New("bits 1 to 56 must be zero")
	}
'''))
ref("zero-array", (BDS00, ZERO, '''	var content [7]byte
	copy(content[:], data)
	if content != [7]byte{} {
		return nil, errors.New("bits 1 to 56 must be zero")
	}
'''))
ref("zero-or", (BDS00, ZERO, '''	all := byte(0)
	for _, b := range data {
		all |= b
	}
	if bits.OnesCount8(all) > 0 {
		return nil, errors.New("bits 1 to 56 must be zero")
	}
'''), (BDS00, '	"fmt"\n', '	"fmt"\n	"math/bits"\n'))
ref("zero-goto", (BDS00, ZERO, '''	i := 0
next:
	if data[i] != 0 {
		return nil, errors.New("bits 1 to 56 must be zero")
	}
	i++
	if i < 7 {
		goto next
	}
'''))
ref("zero-big", (BDS00, ZERO, '''	if binary.BigEndian.Uint32(data)|binary.BigEndian.Uint32(data[3:]) != 0 {
		return nil, errors.New("bits 1 to 56 must be zero")
	}
'''), (BDS00, '	"errors"\n', '	"encoding/binary"\n	"errors"\n'))
CB = "pkg/modes/fields/message_comm_b.go"
CBT = '''	return fmt.Sprintf("%02X %02X %02X %02X %02X %02X %02X",
		messageCommB[0],
		messageCommB[1],
		messageCommB[2],
		messageCommB[3],
		messageCommB[4],
		messageCommB[5],
		messageCommB[6])
'''
ref("commb-percent-x", (CB, CBT, '''	return fmt.Sprintf("% X", []byte(messageCommB[:7]))
'''))
ref("commb-hex", (CB, CBT, '''	parts := make([]string, 0, 7)
	for k := range messageCommB[:7] {
		parts = append(parts, strings.ToUpper(hex.EncodeToString(messageCommB[k:k+1])))
	}
	return strings.Join(parts, " ")
'''), (CB, '	"fmt"\n', '	"encoding/hex"\n	"strings"\n'))
ref("commb-nibbles", (CB, CBT, '''	const digits = "0123456789ABCDEF"
	var text strings.Builder
	for k := 0; k < 7; k++ {
		if k != 0 {
			text.WriteByte(' ')
		}
		text.WriteByte(digits[messageCommB[k]>>4])
		text.WriteByte(digits[messageCommB[k]&0x0F])
	}
	return text.String()
'''), (CB, '	"fmt"\n', '	"strings"\n'))
ref("commb-buffer", (CB, CBT, '''	var text bytes.Buffer
	separator := ""
	for _, b := range messageCommB[:7] {
		fmt.Fprintf(&text, "%s%02X", separator, b)
		separator = " "
	}
	return text.String()
'''), (CB, '	"fmt"\n', '	"bytes"\n	"fmt"\n'))
ref("commb-append", (CB, '''	data := make([]byte, 7)

	for i := 0; i < 7; i++ {
		data[i] = message.Payload[i+3]
	}

	return data
''', '''	return append(MessageCommB(nil), message.Payload[3:10]...)
'''))
DTE = "pkg/bds/bds10/fields/dte_sub_address_statuses.go"
DTEB = '''	statuses := make([]string, 16)

	for i := uint(0); i < 16; i++ {
		bitShift := 15 - i
		dteStatus := (dss >> bitShift) & 0x01
		statuses[i] = fmt.Sprintf("%d", dteStatus)
	}

	return strings.Join(statuses, ", ")
'''
ref("dte-binary", (DTE, DTEB, '''	return strings.Join(strings.Split(fmt.Sprintf("%016b", uint16(dss)), ""), ", ")
'''))
ref("dte-builder", (DTE, DTEB, '''	var text strings.Builder
	for mask := uint16(0x8000); mask != 0; mask >>= 1 {
		if mask != 0x8000 {
			text.WriteString(", ")
		}
		if uint16(dss)&mask != 0 {
			text.WriteByte('1')
		} else {
			text.WriteByte('0')
		}
	}
	return text.String()
'''), (DTE, '	"fmt"\n', ''))
ref("dte-prepend", (DTE, DTEB, '''	text := ""
	for rest, i := dss, 0; i < 16; rest, i = rest/2, i+1 {
		if i > 0 {
			text = ", " + text
		}
		text = strconv.Itoa(int(rest%2)) + text
	}
	return text
'''), (DTE, '	"fmt"\n', ''), (DTE, '	"strings"\n', '	"strconv"\n'))
ref("dte-bits-reverse", (DTE, DTEB, '''	rest := bits.Reverse16(uint16(dss))
	statuses := []string{}
	for len(statuses) < 16 {
		statuses = append(statuses, string('0'+byte(rest&1)))
		rest >>= 1
	}
	return strings.Join(statuses, ", ")
'''), (DTE, '	"fmt"\n', ''), (DTE, '	"strings"\n', '	"math/bits"\n	"strings"\n'))
MOV = "pkg/bds/bds06/fields/movement.go"
ref("movement-search", body(MOV, "func (movementStatus MovementStatus) getSpeed() float32 {", '''
func (movementStatus MovementStatus) getSpeed() float32 {
	if movementStatus <= MSAircraftStopped || movementStatus > MSAboveMaximum {
		return 0
	}
	k := sort.Search(len(movementSteps), func(k int) bool { return movementSteps[k].last >= movementStatus })
	s := movementSteps[k]
	return s.base + float32(movementStatus-s.first)*s.step
}

var movementSteps = []struct {
	first, last MovementStatus
	base, step  float32
}{
	{2, 8, 0.125, 0.125},
	{9, 12, 1, 0.25},
	{13, 38, 2, 0.5},
	{39, 93, 15, 1},
	{94, 108, 70, 2},
	{109, 123, 100, 5},
	{124, 124, 175, 0},
}
'''), (MOV, 'import "fmt"\n', 'import (\n	"fmt"\n	"sort"\n)\n'))
ref("movement-accumulate", body(MOV, "func (movementStatus MovementStatus) getSpeed() float32 {", '''
func (movementStatus MovementStatus) getSpeed() float32 {
	speed := float32(0)
	for k := MovementStatus(2); k <= movementStatus && movementStatus <= 124; k++ {
		switch {
		case k <= 9:
			speed += 0.125
		case k <= 13:
			speed += 0.25
		case k <= 39:
			speed += 0.5
		case k <= 94:
			speed++
		case k <= 109:
			speed += 2
		default:
			speed += 5
		}
	}
	return speed
}
'''))
ref("movement-switch-true", body(MOV, "func (movementStatus MovementStatus) getSpeed() float32 {", '''
func (movementStatus MovementStatus) getSpeed() float32 {
	n := float32(movementStatus)
	switch {
	case movementStatus < 2, movementStatus > 124:
		return 0
	case movementStatus == 124:
		return 175
	case movementStatus > 108:
		return 5*n - 445
	case movementStatus > 93:
		return 2*n - 118
	case movementStatus > 38:
		return n - 24
	case movementStatus > 12:
		return (n - 9) / 2
	case movementStatus > 8:
		return (n - 5) / 4
	}
	return (n - 1) / 8
}
'''))
MAIN = "cmd/main.go"
ref("main-type-switch", (MAIN, '''	switch messageModeS.GetDownLinkFormat() {
	case 16:
		postProcessMessage16(messageModeS.(*modeSMessages.MessageDF16))
	case 17:
		postProcessMessage17(messageModeS.(*modeSMessages.MessageDF17), readerLevel)
	case 18:
		postProcessMessage18(messageModeS.(*modeSMessages.MessageDF18), readerLevel)
	case 20:
		postProcessMessage20(messageModeS.(*modeSMessages.MessageDF20))
	case 21:
		postProcessMessage21(messageModeS.(*modeSMessages.MessageDF21))
	default:
''', '''	switch m := messageModeS.(type) {
	case *modeSMessages.MessageDF16:
		postProcessMessage16(m)
	case *modeSMessages.MessageDF17:
		processADSBMessage(m.MessageExtendedSquitter, readerLevel)
	case *modeSMessages.MessageDF18:
		postProcessMessage18(m, readerLevel)
	case *modeSMessages.MessageDF20:
		processCommBMessage(m.MessageCommB)
	case *modeSMessages.MessageDF21:
		processCommBMessage(m.MessageCommB)
	default:
'''), body(MAIN, "func postProcessMessage17(", ""), body(MAIN, "func postProcessMessage20(", ""), body(MAIN, "func postProcessMessage21(", ""))
ref("main-stream", (MAIN, '''		for _, str := range readFile(*fileName) {
			processSingleLine(str, adsbReaderLevel)
		}
		return
''', '''		lines := readFile(*fileName)
		for len(lines) > 0 {
			processSingleLine(lines[0], adsbReaderLevel)
			lines = lines[1:]
		}
		return
'''))
ref("main-fprint", (MAIN, '	fmt.Printf("Reading: %s\\n", str)\n', '	fmt.Fprintln(os.Stdout, "Reading:", str)\n'),
    (MAIN, '		fmt.Printf("No data provided")\n', '		os.Stdout.WriteString("No data provided")\n'))
ref("main-writer", (MAIN, '''		for i, message := range messages {
			if i > 0 {
				fmt.Printf("-------------------------------\\n")
			}
			fmt.Printf("%v\\n", message.ToString())
		}
''', '''		texts := make([]string, len(messages))
		for i, message := range messages {
			texts[i] = message.ToString()
		}
		fmt.Println(strings.Join(texts, "\\n"+strings.Repeat("-", 31)+"\\n"))
'''), (MAIN, '	"os"\n', '	"os"\n	"strings"\n'))
BDS17 = "pkg/bds/bds17/common_usage_gicb_capability_report.go"
ref("gicb-reserved-slice", (BDS17, '''	for i := uint(4); i < 7; i++ {
		if data[i] != 0 {
			return nil, errors.New("the bits 33 to 56 are reserved and must be 0")
		}
	}
''', '''	reserved := data[4:]
	for len(reserved) > 0 && reserved[0] == 0 {
		reserved = reserved[1:]
	}
	if len(reserved) != 0 {
		return nil, errors.New("the bits 33 to 56 are reserved and must be 0")
	}
'''))
SG = "pkg/geo/cpr_surface_global_position.go"
ref("surface-one-loop", (SG, '''	longitudesCorrected := [4]float64{}
	for i, longitude := range longitudes {
		longitudesCorrected[i] = mod((longitude+180), 360) - 180
	}

	distancesToRef := [4]float64{}
	for i, longitudeCorrected := range longitudesCorrected {
		distancesToRef[i] = math.Abs(mod(referenceLongitude-longitudeCorrected+180, 360) - 180)
	}

	smallestDistance := distancesToRef[0]
	minIndex := 0
	for i, distance := range distancesToRef {
		if distance < smallestDistance {
			smallestDistance = distance
			minIndex = i
		}
	}

	longitude := longitudesCorrected[minIndex]
''', '''	longitude, smallestDistance := 0.0, math.Inf(1)
	for _, candidate := range longitudes {
		corrected := mod(candidate+180, 360) - 180
		distance := math.Abs(mod(referenceLongitude-corrected+180, 360) - 180)
		if distance < smallestDistance {
			longitude, smallestDistance = corrected, distance
		}
	}
'''))
ref("surface-helper-min", (SG, '''	smallestDistance := distancesToRef[0]
	minIndex := 0
	for i, distance := range distancesToRef {
		if distance < smallestDistance {
			smallestDistance = distance
			minIndex = i
		}
	}

	longitude := longitudesCorrected[minIndex]
''', '''	longitude := longitudesCorrected[nearest(distancesToRef[:])]
'''), ("pkg/geo/nearest.go", None, '''package geo

func nearest(distances []float64) (best int) {
	for i := 1; i < len(distances); i++ {
		if distances[i] < distances[best] {
			best = i
		}
	}
	return
}
'''))
ref("gillham-bits", body("pkg/bitutils/gillham.go", "func grayToBinary(", '''
func grayToBinary(num uint16) uint16 {
	result := uint16(0)
	for ; num != 0; num >>= 1 {
		result ^= num
	}
	return result
}
'''))
ref("gillham-parity", body("pkg/bitutils/gillham.go", "func grayToBinary(", '''
func grayToBinary(num uint16) uint16 {
	result := uint16(0)
	for i := uint(0); i < 16; i++ {
		result |= uint16(bits.OnesCount16(num>>i)&1) << i
	}
	return result
}
'''), ("pkg/bitutils/gillham.go", 'import "errors"\n', 'import (\n	"errors"\n	"math/bits"\n)\n'))
BDS40 = "pkg/bds/bds40/selected_vertical_intention.go"
ref("coherency-table", (BDS40, '''	// If no data available, it is probably not coherent
	if !message.MCPFCUSelectedAltitudeAvailable && message.MCPFCUSelectedAltitude != 0 {
		return errors.New("the MCP/FCU SelectedAltitude status is set to false, but a MCP/FCU SelectedAltitude value is given")
	}

	// If no data available, it is probably not coherent
	if !message.FMSSelectedAltitudeAvailable && message.FMSSelectedAltitude != 0 {
		return errors.New("the FMS SelectedAltitude status is set to false, but a FMS SelectedAltitude value is given")
	}

	// If no data available, it is probably not coherent
	if !message.BarometricPressureSettingAvailable && message.BarometricPressureSetting != 800 {
		return errors.New("the BarometricPressureSetting status is set to false, but a BarometricPressureSetting value is given")
	}

	return nil
''', '''	for _, field := range []struct {
		name         string
		given, blank bool
	}{
		{"MCP/FCU SelectedAltitude", message.MCPFCUSelectedAltitudeAvailable, message.MCPFCUSelectedAltitude == 0},
		{"FMS SelectedAltitude", message.FMSSelectedAltitudeAvailable, message.FMSSelectedAltitude == 0},
		{"BarometricPressureSetting", message.BarometricPressureSettingAvailable, message.BarometricPressureSetting == 800},
	} {
		if !field.given && !field.blank {
			return fmt.Errorf("the %s status is set to false, but a %[1]s value is given", field.name)
		}
	}

	return nil
'''))
ref("coherency-switch", (BDS40, '''	// If no data available, it is probably not coherent
	if !message.FMSSelectedAltitudeAvailable && message.FMSSelectedAltitude != 0 {
		return errors.New("the FMS SelectedAltitude status is set to false, but a FMS SelectedAltitude value is given")
	}

	// If no data available, it is probably not coherent
	if !message.BarometricPressureSettingAvailable && message.BarometricPressureSetting != 800 {
		return errors.New("the BarometricPressureSetting status is set to false, but a BarometricPressureSetting value is given")
	}

	return nil
''', '''	var err error
	switch {
	case message.FMSSelectedAltitudeAvailable:
		break
	case message.FMSSelectedAltitude != 0:
		err = errors.New("the FMS SelectedAltitude status is set to false, but a FMS SelectedAltitude value is given")
	}
	if err == nil && !(message.BarometricPressureSettingAvailable || message.BarometricPressureSetting == 800) {
		err = errors.New("the BarometricPressureSetting status is set to false, but a BarometricPressureSetting value is given")
	}

	return err
'''))
ref("reserved-arith", (BDS40, '	if data[4]&0x01 != 0 {', '	if data[4]%2 == 1 {'), (BDS40, '	if data[5]&0xFE != 0 {', '	if data[5] > 1 {'), (BDS40, '	if data[6]&0x18 != 0 {', '	if (data[6]>>3)%4 > 0 {'))
GS = "pkg/bds/bds09/airborne_velocity_ground_speed_normal.go"
ref("speed-pow", (GS, "math.Sqrt(velocityEW*velocityEW + velocityNS*velocityNS)", "math.Sqrt(math.Pow(velocityEW, 2) + math.Pow(velocityNS, 2))"))
ref("speed-int", (GS, "math.Sqrt(velocityEW*velocityEW + velocityNS*velocityNS)", "math.Sqrt(float64(uint32(message.VelocityEW)*uint32(message.VelocityEW) + uint32(message.VelocityNS)*uint32(message.VelocityNS)))"), (GS, '''	velocityEW := float64(message.VelocityEW)
	velocityNS := float64(message.VelocityNS)

	speed''', '''	speed'''))
ref("track-copysign", (GS, '''	trackDegree := trackRadian * (180 / math.Pi)
	if trackDegree < 0 {
		trackDegree = trackDegree + 360
	}
''', '''	trackDegree := 180 * trackRadian / math.Pi
	for trackDegree < 0 {
		trackDegree += 360
	}
'''))
ref("track-signs", (GS, '''	if message.DirectionEastWest == fields.DEWWest {
		velocityEW = -velocityEW
	}
''', '''	if message.DirectionEastWest == fields.DEWWest {
		velocityEW *= -1
	}
'''))

BDS60 = "pkg/bds/bds60/heading_and_speed_report.go"
B60T = "func (message HeadingAndTrackReport) ToString() string {"
ref("report-struct-table", body(BDS60, B60T, '''
func (message HeadingAndTrackReport) ToString() string {
	lines := []struct {
		label string
		value interface{}
	}{
		{"Message", message.GetRegister().ToString()},
		{"Magnetic Heading Status", message.MagneticHeadingStatus},
		{"Magnetic Heading (degrees)", message.MagneticHeading},
		{"Indicated Air Speed Status", message.IndicatedAirSpeedStatus},
		{"Indicated Air Speed (knots)", message.IndicatedAirSpeed},
		{"Mach Status", message.MachStatus},
		{"Mach", message.Mach},
		{"Barometric Altitude Rate Status", message.BarometricAltitudeRateStatus},
		{"Barometric Altitude Rate (feet/minute)", message.BarometricAltitudeRate},
		{"Inertial Vertical Velocity Status", message.InitialVerticalVelocityStatus},
		{"Inertial Vertical Velocity (feet/minute)", message.InitialVerticalVelocity},
	}
	text := ""
	for i, line := range lines {
		if i > 0 {
			text += "\\n"
		}
		text += line.label + ":" + strings.Repeat(" ", 41-len(line.label)) + fmt.Sprint(line.value)
	}
	return text
}
'''), (BDS60, '	"fmt"\n', '	"fmt"\n	"strings"\n'))
ref("report-variadic", body(BDS60, B60T, '''
func (message HeadingAndTrackReport) ToString() string {
	return table(
		"Message:", message.GetRegister().ToString(),
		"Magnetic Heading Status:", message.MagneticHeadingStatus,
		"Magnetic Heading (degrees):", message.MagneticHeading,
		"Indicated Air Speed Status:", message.IndicatedAirSpeedStatus,
		"Indicated Air Speed (knots):", message.IndicatedAirSpeed,
		"Mach Status:", message.MachStatus,
		"Mach:", message.Mach,
		"Barometric Altitude Rate Status:", message.BarometricAltitudeRateStatus,
		"Barometric Altitude Rate (feet/minute):", message.BarometricAltitudeRate,
		"Inertial Vertical Velocity Status:", message.InitialVerticalVelocityStatus,
		"Inertial Vertical Velocity (feet/minute):", message.InitialVerticalVelocity)
}

func table(cells ...interface{}) string {
	var lines []string
	for ; len(cells) >= 2; cells = cells[2:] {
		lines = append(lines, fmt.Sprintf("%-42s%v", cells[0], cells[1]))
	}
	return strings.Join(lines, "\\n")
}
'''), (BDS60, '	"fmt"\n', '	"fmt"\n	"strings"\n'))
ref("report-fprintf-closure", body(BDS60, B60T, '''
func (message HeadingAndTrackReport) ToString() string {
	b := &strings.Builder{}
	line := func(label, format string, value interface{}) {
		if b.Len() > 0 {
			b.WriteRune('\\n')
		}
		fmt.Fprintf(b, "%-*s"+format, 42, label+":", value)
	}
	line("Message", "%s", message.GetRegister().ToString())
	line("Magnetic Heading Status", "%t", message.MagneticHeadingStatus)
	line("Magnetic Heading (degrees)", "%v", message.MagneticHeading)
	line("Indicated Air Speed Status", "%t", message.IndicatedAirSpeedStatus)
	line("Indicated Air Speed (knots)", "%d", message.IndicatedAirSpeed)
	line("Mach Status", "%t", message.MachStatus)
	line("Mach", "%v", message.Mach)
	line("Barometric Altitude Rate Status", "%t", message.BarometricAltitudeRateStatus)
	line("Barometric Altitude Rate (feet/minute)", "%d", message.BarometricAltitudeRate)
	line("Inertial Vertical Velocity Status", "%t", message.InitialVerticalVelocityStatus)
	line("Inertial Vertical Velocity (feet/minute)", "%d", message.InitialVerticalVelocity)
	return b.String()
}
'''), (BDS60, '	"fmt"\n', '	"fmt"\n	"strings"\n'))
ref("report-split-parts", body(BDS60, B60T, '''
func (message HeadingAndTrackReport) ToString() string {
	parts := []string{
		"Message:                                  " + message.GetRegister().ToString(),
		withStatus("Magnetic Heading", "degrees", message.MagneticHeadingStatus, message.MagneticHeading),
		withStatus("Indicated Air Speed", "knots", message.IndicatedAirSpeedStatus, message.IndicatedAirSpeed),
		withStatus("Mach", "", message.MachStatus, message.Mach),
		withStatus("Barometric Altitude Rate", "feet/minute", message.BarometricAltitudeRateStatus, message.BarometricAltitudeRate),
		withStatus("Inertial Vertical Velocity", "feet/minute", message.InitialVerticalVelocityStatus, message.InitialVerticalVelocity),
	}
	return strings.Join(parts, "\\n")
}

func withStatus(name, unit string, status bool, value interface{}) string {
	label := name
	if unit != "" {
		label = fmt.Sprintf("%s (%s)", name, unit)
	}
	return fmt.Sprintf("%-42s%v\\n%-42s%v", name+" Status:", status, label+":", value)
}
'''), (BDS60, '	"fmt"\n', '	"fmt"\n	"strings"\n'))
ref("report-println", body(BDS60, B60T, '''
func (message HeadingAndTrackReport) ToString() string {
	text := fmt.Sprintln("Message:                                 ", message.GetRegister().ToString()) +
		fmt.Sprintln("Magnetic Heading Status:                 ", message.MagneticHeadingStatus) +
		fmt.Sprintln("Magnetic Heading (degrees):              ", message.MagneticHeading) +
		fmt.Sprintln("Indicated Air Speed Status:              ", message.IndicatedAirSpeedStatus) +
		fmt.Sprintln("Indicated Air Speed (knots):             ", message.IndicatedAirSpeed) +
		fmt.Sprintln("Mach Status:                             ", message.MachStatus) +
		fmt.Sprintln("Mach:                                    ", message.Mach) +
		fmt.Sprintln("Barometric Altitude Rate Status:         ", message.BarometricAltitudeRateStatus) +
		fmt.Sprintln("Barometric Altitude Rate (feet/minute):  ", message.BarometricAltitudeRate) +
		fmt.Sprintln("Inertial Vertical Velocity Status:       ", message.InitialVerticalVelocityStatus) +
		fmt.Sprintln("Inertial Vertical Velocity (feet/minute):", message.InitialVerticalVelocity)
	return strings.TrimSuffix(text, "\\n")
}
'''), (BDS60, '	"fmt"\n', '	"fmt"\n	"strings"\n'))
TUR = "pkg/bds/bds45/fields/turbulence.go"
ref("turbulence-helper", (TUR, '''	byte1 := data[4] & 0x03
	byte2 := data[5] & 0xF0
	average := float32(bitutils.Pack2Bytes(byte1, byte2)>>4) * 0.02

	if average > 1.26 {
		average = 1.26
	}

	byte1 = data[5] & 0x0F
	byte2 = data[6] & 0xC0
	peak := float32(bitutils.Pack2Bytes(byte1, byte2)>>6) * 0.02

	if peak > 1.26 {
		peak = 1.26
	}

	byte1 = data[5] & 0x0F
	byte2 = data[6] & 0xC0
	interval := (data[6] & 0x3C) >> 2

	return status, average, peak, interval
''', '''	content := bitutils.Pack4Bytes(0, data[4], data[5], data[6])
	eddy := func(shift uint) float32 {
		code := content >> shift & 0x3F
		if code >= 63 {
			return 1.26
		}
		return float32(code) * 0.02
	}

	return status, eddy(12), eddy(6), byte(content>>2) & 0x0F
'''))
AR = "pkg/adsb/reader/reader.go"
ref("surface-start-max", (SG, '''	smallestDistance := distancesToRef[0]
	minIndex := 0
''', '''	smallestDistance := math.MaxFloat64
	minIndex := 0
'''))
ref("surface-start-circle", (SG, '''	smallestDistance := distancesToRef[0]
	minIndex := 0
''', '''	smallestDistance := 360.0
	minIndex := 0
'''))
ref("surface-sort", (SG, '''	smallestDistance := distancesToRef[0]
	minIndex := 0
	for i, distance := range distancesToRef {
		if distance < smallestDistance {
			smallestDistance = distance
			minIndex = i
		}
	}

	longitude := longitudesCorrected[minIndex]
''', '''	minIndex := 0
	if distancesToRef[1] < distancesToRef[minIndex] {
		minIndex = 1
	}
	if distancesToRef[2] < distancesToRef[minIndex] {
		minIndex = 2
	}
	if distancesToRef[3] < distancesToRef[minIndex] {
		minIndex = 3
	}

	longitude := longitudesCorrected[minIndex]
'''))
ref("nl-clamp", ("pkg/geo/cpr_common.go", '''	if lat == 0 {
		return 59
	} else if math.Abs(lat) == 87 {
		return 2
	} else if math.Abs(lat) > 87 {
		return 1
	}

	a := 1 - math.Cos(math.Pi/(2*Nz))
	b := math.Pow(math.Cos(math.Pi/180.0*math.Abs(lat)), 2.0)
	nl := 2 * math.Pi / (math.Acos(1 - a/b))

	return math.Floor(nl)
''', '''	latitude := math.Abs(lat)
	switch {
	case latitude > 87:
		return 1
	case latitude == 87:
		return 2
	case latitude == 0:
		return 59
	}

	cosLatitude := math.Cos(latitude * math.Pi / 180)
	x := (1 - math.Cos(math.Pi/(2*Nz))) / (cosLatitude * cosLatitude)

	return math.Floor(2 * math.Pi / math.Acos(1-x))
'''))
BU = "pkg/bitutils/bitutils.go"
GH = "pkg/bitutils/gillham.go"
ref("pack8-loop", body(BU, "func Pack8Bits(", '''
func Pack8Bits(b7, b6, b5, b4, b3, b2, b1, b0 bool) byte {
	return byte(packBits(b7, b6, b5, b4, b3, b2, b1, b0))
}

func packBits(bits ...bool) uint64 {
	result := uint64(0)
	for _, bit := range bits {
		result *= 2
		if bit {
			result++
		}
	}
	return result
}
'''), body(BU, "func Pack16Bits(", '''
func Pack16Bits(b15, b14, b13, b12, b11, b10, b9, b8, b7, b6, b5, b4, b3, b2, b1, b0 bool) uint16 {
	high := Pack8Bits(b15, b14, b13, b12, b11, b10, b9, b8)
	low := Pack8Bits(b7, b6, b5, b4, b3, b2, b1, b0)
	return Pack2Bytes(high, low)
}
'''), (BU, "return uint32(b3)<<24 + uint32(b2)<<16 + uint32(b1)<<8 + uint32(b0)", "return uint32(b3)<<24 | Pack3Bytes(b2, b1, b0)"),
 (BU, "return uint32(b2)<<16 + uint32(b1)<<8 + uint32(b0)", "return uint32(Pack2Bytes(b2, b1))*256 + uint32(b0)"))
ref("gray-loop", body(GH, "func grayToBinary(", '''
func grayToBinary(num uint16) uint16 {
	for shifted := num >> 1; shifted != 0; shifted >>= 1 {
		num ^= shifted
	}
	return num
}
'''))
ref("gray-bits", body(GH, "func grayToBinary(", '''
func grayToBinary(num uint16) uint16 {
	result := uint16(0)
	previous := false
	for i := 15; i >= 0; i-- {
		previous = previous != (num&(1<<uint(i)) != 0)
		if previous {
			result |= 1 << uint(i)
		}
	}
	return result
}
'''))
ref("gillham-hundreds", (GH, '''	oneHundred := int32(grayToBinary(oneHundredBits))
	fiveHundred := int32(grayToBinary(fiveHundredBits))

	// Check for invalid codes.
	if oneHundred == 5 || oneHundred == 6 || oneHundred == 0 {
		return 0, errors.New("the bits C1 to to C4 are incorrect")
	}

	// Remove 7s from OneHundreds.
	if oneHundred == 7 {
		oneHundred = 5
	}

	// Correct order of OneHundreds.
	if fiveHundred%2 != 0 {
		oneHundred = 6 - oneHundred
	}
''', '''	oneHundred := hundreds[oneHundredBits]
	if oneHundred < 0 {
		return 0, errors.New("the bits C1 to to C4 are incorrect")
	}
	fiveHundred := int32(grayToBinary(fiveHundredBits))
	if bits.OnesCount16(fiveHundredBits)&1 == 1 {
		oneHundred = 6 - oneHundred
	}
'''), (GH, "func grayToBinary(", '''// hundreds are the hundreds of feet, by C1 C2 C4
var hundreds = [...]int32{-1, 1, 3, 2, 5, -1, 4, -1}

func grayToBinary('''), (GH, 'import "errors"', 'import (\n\t"errors"\n\t"math/bits"\n)'))
GL = "pkg/bds/bds65/fields/gps_antenna_longitudinal.go"
ref("glon-arith", body(GL, "func (data GPSAntennaLongitudinal) ToString(", '''
func (data GPSAntennaLongitudinal) ToString() string {
	code := int(data)
	text := strconv.Itoa(code) + " - "
	if code > 31 {
		return text + "Unknown code"
	}
	if code > 1 {
		return text + strconv.Itoa((code-1)*2)
	}
	return text + [2]string{"no data", "Antenna Offset is compensated by the Sensor"}[code]
}
'''), (GL, 'import "fmt"', 'import "strconv"'))
LW = "pkg/bds/bds65/fields/length_width.go"
ref("length-table", body(LW, "func (status LengthWidth) ToString(", '''
func (status LengthWidth) ToString() string {
	if int(status) >= len(lengthWidths) {
		return fmt.Sprintf("%d - Unknown code", status)
	}
	size := lengthWidths[status]
	return fmt.Sprintf("%d - Length lower than %d meters and Width lower than %v meters", status, size.length, size.width)
}

var lengthWidths = []struct {
	length int
	width  float64
}{
	{15, 11.5}, {15, 23}, {25, 28.5}, {25, 34}, {35, 33}, {35, 38}, {45, 39.5}, {45, 45},
	{55, 45}, {55, 52}, {65, 59}, {65, 67}, {75, 72.5}, {75, 80}, {85, 80}, {85, 90},
}
'''))
ref("length-widths-only", body(LW, "func (status LengthWidth) ToString(", '''
func (status LengthWidth) ToString() string {
	if status > LWLength85Width90 {
		return fmt.Sprintf("%v - Unknown code", status)
	}
	widths := strings.Split("11.5 23 28.5 34 33 38 39.5 45 45 52 59 67 72.5 80 80 90", " ")
	length := 15
	if status > 1 {
		length = 5 + 10*int(status/2) + 10
	}
	return fmt.Sprintf("%v - Length lower than %v meters and Width lower than %s meters", status, length, widths[status])
}
'''), (LW, 'import "fmt"', 'import (\n\t"fmt"\n\t"strings"\n)'))
DR = "pkg/modes/fields/downlink_request.go"
ref("elm-arith", body(DR, "func (downlinkRequest DownlinkRequest) ToString(", '''
func (downlinkRequest DownlinkRequest) ToString() string {
	code := int(downlinkRequest)
	switch {
	case code < 0 || code > 31:
		return fmt.Sprintf("%v - Unknown code", code)
	case code >= 16:
		return fmt.Sprintf("%v - ELM Available %v Segment", code, code-15) + plural(code-15)
	case code >= 8:
		return fmt.Sprintf("%v - Not Assigned", code)
	}
	return fmt.Sprintf("%v - %v", code, [...]string{
		"No Downlink Request",
		"Request To Send Comm-B Message",
		"ACAS message available",
		"Comm-B message available and ACAS message available",
		"Comm-B Message 1 Available",
		"Comm-B Message 2 Available",
		"Comm-B broadcast message 1 available and ACAS message available",
		"Comm-B broadcast message 2 available and ACAS message available",
	}[code])
}

func plural(n int) string {
	if n == 10 {
		return ""
	}
	return "s"
}
'''))
B5 = "pkg/bds/bds50/track_and_turn_report.go"
ref("turn-coherency-abs", (B5, "if message.RollAngle > 50 || message.RollAngle < -50 {", "if math.Abs(float64(message.RollAngle)) > 50 {"),
 (B5, '''	speedDifference := int(message.GroundSpeed) - int(message.TrueAirSpeed)
	if (speedDifference < -200) || (speedDifference > 200) {
''', '''	low, high := message.TrueAirSpeed, message.GroundSpeed
	if low > high {
		low, high = high, low
	}
	if high-low > 200 {
'''), (B5, '\t"fmt"\n', '\t"fmt"\n\t"math"\n'))
ref("turn-coherency-max", (B5, '''	speedDifference := int(message.GroundSpeed) - int(message.TrueAirSpeed)
	if (speedDifference < -200) || (speedDifference > 200) {
''', '''	if math.Max(float64(message.GroundSpeed), float64(message.TrueAirSpeed))-math.Min(float64(message.GroundSpeed), float64(message.TrueAirSpeed)) > 200 {
'''), (B5, '\t"fmt"\n', '\t"fmt"\n\t"math"\n'))
ref("turn-checks", body(B5, "func (message TrackAndTurnReport) CheckCoherency(", '''
func (message TrackAndTurnReport) CheckCoherency() error {
	values := []struct {
		name      string
		available bool
		zero      bool
	}{
		{"roll angle", message.RollAngleStatus, message.RollAngle == 0},
		{"true track angle", message.TrueTrackAngleStatus, message.TrueTrackAngle == 0},
		{"ground speed", message.GroundSpeedStatus, message.GroundSpeed == 0},
		{"track angle rate", message.TrackAngleRateStatus, message.TrackAngleRate == 0},
		{"true air speed", message.TrueAirSpeedStatus, message.TrueAirSpeed == 0},
	}
	available := 0
	for _, value := range values {
		if value.available {
			available++
			continue
		}
		if !value.zero {
			return fmt.Errorf("the %s status is set to false, but a value is given", value.name)
		}
	}
	if available == 0 {
		return errors.New("the message does not convey any information")
	}

	difference := int(message.GroundSpeed) - int(message.TrueAirSpeed)
	switch {
	case message.RollAngle > 50, message.RollAngle < -50:
		return errors.New("the roll angle is too high (above 50 degrees)")
	case message.GroundSpeed > 600:
		return errors.New("the ground speed is too high (above 600 knots)")
	case message.TrueAirSpeed > 500:
		return errors.New("the true air speed is too high (above 500 knots)")
	case difference*difference > 200*200:
		return errors.New("the difference between true air speed and ground speed is too high (above 200 knots)")
	default:
		return nil
	}
}
'''))
ref("turn-reader", ("pkg/bds/bds50/reader.go", None, '''package bds50

// bitReader reads fields one after the other
type bitReader struct {
	data []byte
	pos  uint
}

func (r *bitReader) flag() bool {
	return r.unsigned(1) == 1
}

func (r *bitReader) unsigned(width uint) uint32 {
	value := uint32(0)
	for ; width > 0; width-- {
		value = value<<1 | uint32(r.data[r.pos/8]>>(7-r.pos%8)&1)
		r.pos++
	}
	return value
}

func (r *bitReader) signed(width uint) int32 {
	value := int32(r.unsigned(width))
	if limit := int32(1) << (width - 1); value >= limit {
		value -= 2 * limit
	}
	return value
}
'''), (B5, '''	rollAngleStatus, rollAngle := fields.ReadRollAngle(data)
	trueTrackAngleStatus, trueTrackAngle := fields.ReadTrueTrackAngle(data)
	groundSpeedStatus, groundSpeed := fields.ReadGroundSpeed(data)
	trackAngleRateStatus, trackAngleRate := fields.ReadTrackAngleRate(data)
	trueAirSpeedStatus, trueAirSpeed := fields.ReadTrueAirSpeed(data)

	return &TrackAndTurnReport{
		RollAngleStatus:      rollAngleStatus,
		RollAngle:            rollAngle,
		TrueTrackAngleStatus: trueTrackAngleStatus,
		TrueTrackAngle:       trueTrackAngle,
		GroundSpeedStatus:    groundSpeedStatus,
		GroundSpeed:          groundSpeed,
		TrackAngleRateStatus: trackAngleRateStatus,
		TrackAngleRate:       trackAngleRate,
		TrueAirSpeedStatus:   trueAirSpeedStatus,
		TrueAirSpeed:         trueAirSpeed,
	}, nil
''', '''	r := &bitReader{data: data}
	report := new(TrackAndTurnReport)
	report.RollAngleStatus, report.RollAngle = r.flag(), float32(r.signed(10))*45/256
	report.TrueTrackAngleStatus, report.TrueTrackAngle = r.flag(), float32(r.signed(11))*90/512
	report.GroundSpeedStatus, report.GroundSpeed = r.flag(), r.unsigned(10)*2
	report.TrackAngleRateStatus, report.TrackAngleRate = r.flag(), float32(r.signed(10))*8/256
	report.TrueAirSpeedStatus, report.TrueAirSpeed = r.flag(), r.unsigned(10)*2
	return report, nil
'''), (B5, '\t"github.com/twuillemin/modes/pkg/bds/bds50/fields"\n', ''))
B6 = "pkg/bds/bds60/heading_and_speed_report.go"
ref("heading-first-error", body(B6, "func (message HeadingAndTrackReport) CheckCoherency(", '''
func (message HeadingAndTrackReport) CheckCoherency() error {
	var problem error
	check := func(failed bool, text string) {
		if failed && problem == nil {
			problem = errors.New(text)
		}
	}
	rateOutside := func(rate int32) bool { return rate < -6000 || rate > 6000 }

	check(!(message.MagneticHeadingStatus || message.IndicatedAirSpeedStatus || message.MachStatus || message.BarometricAltitudeRateStatus || message.InitialVerticalVelocityStatus),
		"the message does not convey any information")
	check(!message.MagneticHeadingStatus && message.MagneticHeading != 0, "a magnetic heading is given without status")
	check(!message.IndicatedAirSpeedStatus && message.IndicatedAirSpeed != 0, "an indicated air speed is given without status")
	check(!message.MachStatus && message.Mach != 0, "a mach is given without status")
	check(!message.BarometricAltitudeRateStatus && message.BarometricAltitudeRate != 0, "a barometric altitude rate is given without status")
	check(!message.InitialVerticalVelocityStatus && message.InitialVerticalVelocity != 0, "an inertial vertical velocity is given without status")
	check(message.IndicatedAirSpeed > 500, "the indicated air speed is too high (above 500 knots)")
	check(message.Mach > 1, "the mach is too high (above 1.0)")
	check(rateOutside(message.BarometricAltitudeRate), "the barometric altitude rate is to high or to low")
	check(rateOutside(message.InitialVerticalVelocity), "the initial vertical velocity is to high or to low")

	return problem
}
'''))
ref("register-constructor", *[("pkg/bds/register/register_reference.go", 'var BDS%s = Register{\n\tid:          "BDS %s,%s",\n\tdescription: "%s",\n}' % (c, c[0], c[1], d), 'var BDS%s = newRegister(0x%s, "%s")' % (c, c, d)) for c, d in [
 ("00", "No message waiting for transmission"), ("05", "Extended squitter airborne position"), ("40", "Selected vertical intention"), ("65", "Extended squitter aircraft operational status")]],
 ("pkg/bds/register/register_reference.go", "// GetId returns", '''func newRegister(code byte, description string) Register {
	return Register{
		id:          fmt.Sprintf("BDS %X,%X", code>>4, code&0x0F),
		description: description,
	}
}

// GetId returns'''))
ref("register-const-sprint", ("pkg/bds/register/register_reference.go", 'return fmt.Sprintf("%v - %v", register.id, register.description)', 'return fmt.Sprint(register.id, " - ", register.description)'))
AO = "pkg/acas/ra/fields/active_resolution_advisory_one_or_same_separation.go"
ref("ara-closure", body(AO, "func ReadARAOneThreatOrSameSeparation(", '''
func ReadARAOneThreatOrSameSeparation(data []byte) *ActiveRAOneThreatOrSameSeparation {
	flags := data[0]
	next := func() byte {
		flags <<= 1
		return flags >> 7
	}
	advisory := &ActiveRAOneThreatOrSameSeparation{}
	advisory.PreventiveCorrective = ActiveRAPreventiveCorrective(next())
	advisory.Sense = ActiveRASense(next())
	advisory.IsIncreasedRate = next() == 1
	advisory.IsSenseReversal = next() == 1
	advisory.IsAltitudeCrossing = next() == 1
	advisory.VerticalSpeedLimitOrPositive = ActiveRAVerticalSpeedLimitOrPositive(next())
	return advisory
}
'''))
RA = "pkg/acas/ra/resolution_advisory.go"
ref("ra-identity", body(RA, "func ReadResolutionAdvisory(", '''
func ReadResolutionAdvisory(data []byte) (*ResolutionAdvisory, error) {

	if len(data) != 6 {
		return nil, errors.New("the data for ACAS ResolutionAdvisory message must be 6 bytes long")
	}

	advisory := &ResolutionAdvisory{
		RAComplement:            fields.ReadRAComplement(data),
		RATerminatedIndicator:   fields.ReadRATerminatedIndicator(data),
		MultipleThreatEncounter: fields.ReadMultipleThreatEncounter(data),
		ThreatTypeIndicator:     fields.ReadThreatTypeIndicator(data),
	}
	if err := advisory.readIdentity(data); err != nil {
		return nil, err
	}
	advisory.ActiveRA = fields.ReadActiveResolutionAdvisory(data)
	return advisory, nil
}

func (message *ResolutionAdvisory) readIdentity(data []byte) error {
	switch message.ThreatTypeIndicator {
	case fields.ThreatTypeModeS:
		message.ThreatIdentityAddress = new(fields.ThreatIdentityAddress)
		*message.ThreatIdentityAddress = fields.ReadThreatIdentityAddress(data)
	case fields.ThreatTypeAltitudeRangeBearing:
		altitude, err := fields.ReadThreatIdentityAltitude(data)
		if err != nil {
			return err
		}
		distance, bearing := fields.ReadThreatIdentityRange(data), fields.ReadThreatIdentityBearing(data)
		message.ThreatIdentityAltitude, message.ThreatIdentityRange, message.ThreatIdentityBearing = &altitude, &distance, &bearing
	}
	return nil
}
'''))
ref("ra-text-lines", body(RA, "func (message ResolutionAdvisory) ToString(", '''
func (message ResolutionAdvisory) ToString() string {
	lines := []string{
		"Active Resolution Advisory:",
		common.PrefixMultiLine(message.ActiveRA.ToString(), "    "),
		"Active Resolution Advisory Complement:",
		common.PrefixMultiLine(message.RAComplement.ToString(), "    "),
	}
	add := func(label string, value string) {
		lines = append(lines, fmt.Sprintf("%-48s %s", label+":", value))
	}
	add("Active Resolution Advisory Terminated Indicator", message.RATerminatedIndicator.ToString())
	add("Multiple Threat Encounter", message.MultipleThreatEncounter.ToString())
	add("Threat Type Indicator", message.ThreatTypeIndicator.ToString())
	switch message.ThreatTypeIndicator {
	case fields.ThreatTypeModeS:
		if address := message.ThreatIdentityAddress; address == nil {
			add("Threat Mode-S Identity", "[Error: Missing Mod-S Address]")
		} else {
			add("Threat Mode-S Identity", address.ToString())
		}
	case fields.ThreatTypeAltitudeRangeBearing:
		if altitude := message.ThreatIdentityAltitude; altitude == nil {
			add("Threat Altitude", "[Error: Missing Threat Altitude]")
		} else {
			add("Threat Altitude", altitude.ToString())
		}
		if distance := message.ThreatIdentityRange; distance == nil {
			lines = append(lines, "Threat Range:                                   [Error: Missing Threat Range]")
		} else {
			add("Threat Range", distance.ToString())
		}
		if bearing := message.ThreatIdentityBearing; bearing == nil {
			lines = append(lines, "Threat Bearing:                                 [Error: Missing Threat Bearing]")
		} else {
			add("Threat Bearing", bearing.ToString())
		}
	}
	return strings.Join(lines, "\\n")
}
'''), (RA, '\t"fmt"\n', '\t"fmt"\n\t"strings"\n'))
A5 = "pkg/bds/bds05/fields/altitude.go"
ref("altitude05-struct", body(A5, "func ReadAltitude(", '''
func ReadAltitude(data []byte) (int32, AltitudeSource, AltitudeReportMethod, error) {
	code := altitudeCode(uint16(data[1])<<4 | uint16(data[2])>>4)
	feet, method, ok := code.feet()
	if !ok {
		return 0, 0, 0, errors.New("the Altitude field is malformed")
	}
	return feet, sourceOf(data[0] >> 3), method, nil
}

func sourceOf(format byte) AltitudeSource {
	if format-20 < 3 {
		return AltitudeGNSS
	}
	return AltitudeBarometric
}

// altitudeCode is C1 A1 C2 A2 C4 A4 B1 Q B2 D2 B4 D4
type altitudeCode uint16

func (code altitudeCode) bit(number uint) bool {
	return code<<number&0x800 != 0
}

func (code altitudeCode) feet() (int32, AltitudeReportMethod, bool) {
	if code.bit(7) {
		steps := int32(code>>5)<<4 + int32(code%16)
		return (steps - 40) * 25, AltitudeReport25FootIncrements, true
	}
	feet, err := bitutils.GillhamToAltitude(
		false, code.bit(9), code.bit(11),
		code.bit(1), code.bit(3), code.bit(5),
		code.bit(6), code.bit(8), code.bit(10),
		code.bit(0), code.bit(2), code.bit(4))
	return feet, AltitudeReport100FootIncrements, err == nil
}
'''))
H2 = "pkg/adsb/airborne_position/airborne_position_v2.go"
ref("nic2-struct-map", body(H2, "func getHCRAndNICForV2(", '''
func getHCRAndNICForV2(formatTypeCode byte,
	nicSupplementA bool,
	nicSupplementB fields.NavigationIntegrityCodeSupplementB) (fields.HorizontalContainmentRadiusV2, byte) {

	for _, containment := range containmentsV2 {
		if containment.format != formatTypeCode {
			continue
		}
		if containment.needsA && !nicSupplementA || containment.needsB && nicSupplementB != fields.NICBOne {
			continue
		}
		return containment.radius, containment.nic
	}
	return fields.HCRGNSSV2RcGreaterThan25MOrUnknown, 0
}

// containmentsV2 are the radius and category, the first that applies counts
var containmentsV2 = []struct {
	format         byte
	needsA, needsB bool
	radius         fields.HorizontalContainmentRadiusV2
	nic            byte
}{
	{9, false, false, fields.HCRBaroV2RcLowerThan7Point5M, 11},
	{10, false, false, fields.HCRBaroV2RcLowerThan25M, 10},
	{11, true, false, fields.HCRBaroV2RcLowerThan75M, 9},
	{11, false, false, fields.HCRBaroV2RcLowerThan0Point1NM, 8},
	{12, false, false, fields.HCRBaroV2RcLowerThan0Point2NM, 7},
	{13, true, false, fields.HCRBaroV2RcLowerThan0Point6NM, 6},
	{13, false, true, fields.HCRBaroV2RcLowerThan0Point3NM, 6},
	{13, false, false, fields.HCRBaroV2RcLowerThan0Point5NM, 6},
	{14, false, false, fields.HCRBaroV2RcLowerThan1Point0NM, 5},
	{15, false, false, fields.HCRBaroV2RcLowerThan2NM, 4},
	{16, true, false, fields.HCRBaroV2RcLowerThan4NM, 3},
	{16, false, false, fields.HCRBaroV2RcLowerThan8NM, 2},
	{17, false, false, fields.HCRBaroV2RcLowerThan20NM, 1},
	{18, false, false, fields.HCRBaroV2RcGreaterThan20NM, 0},
	{20, false, false, fields.HCRGNSSV2RcLowerThan7Point5M, 11},
	{21, false, false, fields.HCRGNSSV2RcLowerThan25M, 10},
}
'''))
ID = "pkg/modes/fields/identity.go"
ref("identity-octal", (ID, '''		Identity: fmt.Sprintf("%v%v%v%v", a, b, c, d),
''', '''		Identity: fmt.Sprintf("%04o", a<<9|b<<6|c<<3|d),
'''))
ref("identity-decimal", (ID, '''		Identity: fmt.Sprintf("%v%v%v%v", a, b, c, d),
''', '''		Identity: fmt.Sprintf("%04d", 1000*int(a)+100*int(b)+10*int(c)+int(d)),
'''))
ref("identity-special-map", body(ID, "func (identity Identity) ToString(", '''
func (identity Identity) ToString() string {
	if special, found := specialIdentities[identity.Identity]; found {
		return fmt.Sprintf("%s [%s]", identity.Identity, special)
	}
	return identity.Identity
}

var specialIdentities = map[string]string{
	"7700": "Emergency",
	"7600": "Radiocommunication Failure",
	"7500": "Unlawful Interference",
	"2000": "Instruction Not Received",
}
'''))
ref("icao-hex", ("pkg/modes/common/address.go", '''	return fmt.Sprintf("%02X %02X %02X ",
		byte((address&0x00FF0000)>>16),
		byte((address&0x0000FF00)>>8),
		byte(address&0x000000FF))
''', '''	text := fmt.Sprintf("%08X", uint32(address))[2:]
	return text[0:2] + " " + text[2:4] + " " + text[4:6] + " "
'''))
ref("icao-bytes", ("pkg/modes/common/address.go", '''	return fmt.Sprintf("%02X %02X %02X ",
		byte((address&0x00FF0000)>>16),
		byte((address&0x0000FF00)>>8),
		byte(address&0x000000FF))
''', '''	bytes := [4]byte{}
	binary.BigEndian.PutUint32(bytes[:], uint32(address))
	return fmt.Sprintf("% X ", bytes[1:])
'''), ("pkg/modes/common/address.go", 'import "fmt"', 'import (\n\t"encoding/binary"\n\t"fmt"\n)'))
CR = "pkg/modes/reader/crc.go"
ref("crc-known", body(CR, "func checkCRCOther(", '''
func checkCRCOther(
	data []byte,
	allowedAddresses map[common.ICAOAddress]bool) (common.ICAOAddress, error) {

	address, known := resolve(data, len(data)-3, allowedAddresses)
	if !known {
		return 0, fmt.Errorf("the message parity resolves to an unknown Address")
	}
	return address, nil
}

func resolve(data []byte, length int, known map[common.ICAOAddress]bool) (address common.ICAOAddress, ok bool) {
	parity := data[length : length+3]
	address = common.ICAOAddress(computeParity(data[:length]) ^ bitutils.Pack3Bytes(parity[0], parity[1], parity[2]))
	if len(known) == 0 {
		return address, true
	}
	_, ok = known[address]
	return
}
'''), body(CR, "func checkCRCDF11(", '''
func checkCRCDF11(
	data []byte,
	allowedInterrogatorIdentifiers map[common.ICAOAddress]bool) (common.ICAOAddress, error) {

	if interrogator, known := resolve(data, 4, allowedInterrogatorIdentifiers); known {
		return interrogator, nil
	}
	return 0, fmt.Errorf("the message parity resolves to an unknown Interrogator Identifier")
}
'''))
ref("crc-iterate-known", (CR, '''	if len(allowedAddresses) > 0 {
		if _, ok := allowedAddresses[address]; !ok {
			return 0, fmt.Errorf("the message parity resolves to an unknown Address")
		}
	}

	return address, nil
''', '''	if len(allowedAddresses) == 0 {
		return address, nil
	}
	if _, ok := allowedAddresses[address]; ok {
		return address, nil
	}
	return 0, fmt.Errorf("the message parity resolves to an unknown Address")
'''))
ref("crc-residue", body(CR, "func checkCRCDF17And18(", '''
func checkCRCDF17And18(data []byte) (common.ICAOAddress, error) {
	received := [3]byte{data[11], data[12], data[13]}
	computed := computeParity(data[:11])
	for i, value := range received {
		if byte(computed>>uint(16-8*i)) != value {
			return 0, fmt.Errorf("the message does not have a valid CRC")
		}
	}
	return common.ICAOAddress(uint32(data[1])<<16 | uint32(data[2])<<8 | uint32(data[3])), nil
}
'''))
RD = "pkg/modes/reader/reader.go"
ref("modes-dispatch", (RD, '''	switch messageData.DownLinkFormat {
	case 0:''', '''	if messageData.DownLinkFormat >= 24 {
		df24, err := messages.ParseDF24(messageData)
		if err != nil {
			return nil, err
		}
		return df24, nil
	}
	switch messageData.DownLinkFormat {
	case 0:'''), (RD, '''	case 24, 25, 26, 27, 28, 29, 30, 31:
		// For DF24, only the first two bits of the generally used 5 bits
		// are possible. So use all combinations 24->31
		modeS, err = messages.ParseDF24(messageData)
''', ""))
CB = "pkg/commb/reader.go"
ref("commb-sources", body(CB, "func ReadCommBMessage(", '''
func ReadCommBMessage(data []byte) ([]bds.Message, error) {
	if len(data) != 7 {
		return nil, errors.New("the data for Comm-B message must be 7 bytes long")
	}

	if message, err := bds00.ReadNoMessageAvailable(data); err == nil {
		return []bds.Message{message}, nil
	}

	for _, read := range []reader{
		func(data []byte) (bds.Message, error) { return bds07.ReadStatus(data) },
		func(data []byte) (bds.Message, error) { return bds20.ReadAircraftIdentification(data) },
	} {
		if message := read.coherent(data); message != nil {
			return []bds.Message{message}, nil
		}
	}

	messages := []bds.Message{}
	for _, read := range readers {
		if message := read.coherent(data); message != nil {
			messages = append(messages, message)
		}
	}
	return messages, nil
}

type reader func(data []byte) (bds.Message, error)

// coherent returns the message, or nil
func (read reader) coherent(data []byte) bds.Message {
	message, err := read(data)
	if err != nil || message.CheckCoherency() != nil {
		return nil
	}
	return message
}

var readers = []reader{
	func(data []byte) (bds.Message, error) { return bds10.ReadDataLinkCapabilityReport(data) },
	func(data []byte) (bds.Message, error) { return bds17.ReadCommonUsageGICBCapabilityReport(data) },
	func(data []byte) (bds.Message, error) { return bds30.ReadACASResolutionAdvisory(data) },
	func(data []byte) (bds.Message, error) { return bds40.ReadSelectedVerticalIntention(data) },
	func(data []byte) (bds.Message, error) { return bds44.ReadMeteorologicalRoutineAirReport(data) },
	func(data []byte) (bds.Message, error) { return bds45.ReadMeteorologicalHazardReport(data) },
	func(data []byte) (bds.Message, error) { return bds50.ReadTrackAndTurnReport(data) },
	func(data []byte) (bds.Message, error) { return bds60.ReadHeadingAndSpeedReport(data) },
}
'''))
O2 = "pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go"
ref("surface2-checks", (O2, '''	formatTypeCode := (data[0] & 0xF8) >> 3
	if formatTypeCode != 31 {
		return nil, fmt.Errorf("the field FormatTypeCode must be 31, got %v", formatTypeCode)
	}

	subType := fields.ReadSubtype(data)
	if subType != fields.SubtypeSurface {
		return nil, fmt.Errorf("the data are given for subtype %v format and can not be read by ReadAircraftOperationalStatusSurfaceADSB2", subType.ToString())
	}
''', '''	if data[0] != 31<<3|1 {
		return nil, fmt.Errorf("format %v, subtype %v can not be read", data[0]>>3, data[0]&7)
	}
	formatTypeCode, subType := byte(31), fields.SubtypeSurface
'''), (O2, '''	capabilityContent := (data[1] & 0xC0) >> 6
	if capabilityContent != 0 {
		return nil, fmt.Errorf("the Capability Content (field Capability Class) must be 0 (%v given)", capabilityContent)
	}

	operationalModeFormat := (data[3] & 0xC0) >> 6
	if operationalModeFormat != 0 {
		return nil, fmt.Errorf("the Operational Mode Format (field Operational Mode) must be 0 (%v given)", operationalModeFormat)
	}

	if data[6]&0x01 != 0 {
		return nil, errors.New("the bit 56 must be 0")
	}
''', '''	for _, reserved := range [...]struct{ index, mask byte }{{1, 0xC0}, {3, 0xC0}, {6, 0x01}} {
		if data[reserved.index]&reserved.mask != 0 {
			return nil, errors.New("reserved bits are set")
		}
	}
'''))
V9 = "pkg/bds/bds09/airborne_velocity_ground_speed_normal.go"
_v9 = open("/repo/"+V9).read()
_track_old = _v9[_v9.index("	trackRadian := math.Atan2(velocityEW, velocityNS)"):_v9.index("	return float32(trackDegree), nil")]
ref("track-mod", (V9, _track_old, '''	trackDegree := math.Mod(math.Atan2(velocityEW, velocityNS)*180/math.Pi+360, 360)

'''))
ref("track-multipliers", (V9, '''	if message.DirectionEastWest == fields.DEWWest {
		velocityEW = -velocityEW
	}

	if message.DirectionNorthSouth == fields.DNSSouth {
		velocityNS = -velocityNS
	}
''', '''	signs := [2]float64{1, -1}
	velocityEW *= signs[message.DirectionEastWest&1]
	velocityNS *= signs[message.DirectionNorthSouth&1]
'''))
ref("track-hypot", (V9, "	speed := math.Sqrt(velocityEW*velocityEW + velocityNS*velocityNS)\n", "	speed := math.Sqrt(math.Pow(velocityEW, 2) + math.Pow(velocityNS, 2))\n"),
 (V9, '''	trackDegree := trackRadian * (180 / math.Pi)
	if trackDegree < 0 {
		trackDegree = trackDegree + 360
	}
''', '''	trackDegree := trackRadian / math.Pi * 180
	if trackRadian < 0 {
		trackDegree += 360
	}
'''))
ref("regular-helper", body(V9, "func (message AirborneVelocityGroundSpeedNormal) GetSpeed(", '''
func (message AirborneVelocityGroundSpeedNormal) GetSpeed() (uint32, error) {
	if err := message.checkVelocities(); err != nil {
		return 0, err
	}

	velocityEW := float64(message.VelocityEW)
	velocityNS := float64(message.VelocityNS)

	return uint32(math.Sqrt(velocityEW*velocityEW + velocityNS*velocityNS)), nil
}

func (message AirborneVelocityGroundSpeedNormal) checkVelocities() error {
	for _, velocity := range []struct {
		name   string
		status fields.NumericValueStatus
	}{
		{"EW", message.VelocityEWStatus},
		{"NS", message.VelocityNSStatus},
	} {
		if velocity.status != fields.NVSRegular {
			return fmt.Errorf("velocity %s is not regular", velocity.name)
		}
	}
	return nil
}
'''), (V9, '''func (message AirborneVelocityGroundSpeedNormal) GetTrack() (float32, error) {
	if message.VelocityEWStatus != fields.NVSRegular {
		return 0, errors.New("velocity EW is not regular")
	}

	if message.VelocityNSStatus != fields.NVSRegular {
		return 0, errors.New("velocity NS is not regular")
	}
''', '''func (message AirborneVelocityGroundSpeedNormal) GetTrack() (float32, error) {
	if err := message.checkVelocities(); err != nil {
		return 0, err
	}
'''), (V9, '	"errors"\n', ''))
B17 = "pkg/bds/bds17/common_usage_gicb_capability_report.go"
ref("gicb-copy", (B17, '''	// Bits 30 to 32 are reserved and must be 0
''', '''	var buffer [8]byte
	copy(buffer[1:], data)
	word := binary.BigEndian.Uint64(buffer[:])
	bit := func(n uint) bool {
		return word>>(56-n)&1 == 1
	}

	// Bits 30 to 32 are reserved and must be 0
'''), (B17, '''	if data[3]&0x07 != 0 {
''', '''	if bit(30) || bit(31) || bit(32) {
'''), (B17, "(data[0]&0x80)>>7 != 0", "bit(1)"), (B17, "(data[0]&0x01)>>0 != 0", "bit(8)"), (B17, "(data[1]&0x20)>>5 != 0", "bit(11)"),
 (B17, '	"errors"\n', '	"encoding/binary"\n	"errors"\n'))
ref("gicb-append", (B17, '''	for i := uint(4); i < 7; i++ {
		if data[i] != 0 {
			return nil, errors.New("the bits 33 to 56 are reserved and must be 0")
		}
	}
''', '''	if binary.BigEndian.Uint32(append([]byte{0}, data[4:]...)) != 0 {
		return nil, errors.New("the bits 33 to 56 are reserved and must be 0")
	}
'''), (B17, '	"errors"\n', '	"encoding/binary"\n	"errors"\n'))
ref("gicb-string", (B17, '''	for i := uint(4); i < 7; i++ {
		if data[i] != 0 {
			return nil, errors.New("the bits 33 to 56 are reserved and must be 0")
		}
	}
''', '''	if [3]byte{data[4], data[5], data[6]} != [3]byte{} {
		return nil, errors.New("the bits 33 to 56 are reserved and must be 0")
	}
'''))
BP = "pkg/bds/bds40/fields/barometric_pressure.go"
ref("pressure-tenth", (BP, "	pressure := (float32(allBits) * 0.1) + 800\n", "	pressure := float32(8000+int(allBits)) / 10\n"))
ref("pressure-div", (BP, "	pressure := (float32(allBits) * 0.1) + 800\n", "	pressure := float32(800 + float64(allBits)/10)\n"))
T45 = "pkg/bds/bds45/fields/turbulence.go"
ref("turbulence-min", (T45, '''	average := float32(bitutils.Pack2Bytes(byte1, byte2)>>4) * 0.02

	if average > 1.26 {
		average = 1.26
	}
''', '''	average := float32(math.Min(float64(bitutils.Pack2Bytes(byte1, byte2)>>4)*0.02, 1.26))
'''), (T45, 'import "github.com/twuillemin/modes/pkg/bitutils"\n', 'import (\n	"github.com/twuillemin/modes/pkg/bitutils"\n	"math"\n)\n'))
ref("turbulence-counts", (T45, '''	average := float32(bitutils.Pack2Bytes(byte1, byte2)>>4) * 0.02

	if average > 1.26 {
		average = 1.26
	}
''', '''	average := limited(bitutils.Pack2Bytes(byte1, byte2) >> 4)
'''), (T45, '''	peak := float32(bitutils.Pack2Bytes(byte1, byte2)>>6) * 0.02

	if peak > 1.26 {
		peak = 1.26
	}

	byte1 = data[5] & 0x0F
	byte2 = data[6] & 0xC0
''', '''	peak := limited(bitutils.Pack2Bytes(byte1, byte2) >> 6)

'''), (T45, "func ReadTurbulenceV1", '''func limited(count uint16) float32 {
	if count > 63 {
		count = 63
	}
	return float32(count) / 50
}

func ReadTurbulenceV1'''))
F45 = "pkg/bds/bds45/fields/"
ref("hazard-shared", body(F45+"turbulence.go", "func ReadTurbulenceV0(", '''
func ReadTurbulenceV0(data []byte) (bool, HazardLevel) {
	return readHazard(data, 1)
}

// readHazard reads a hazard on three bits, the first one being the bit first, numbered from 1
func readHazard(data []byte, first uint) (bool, HazardLevel) {
	level := byte(0)
	for n := first; n < first+3; n++ {
		level = level<<1 | data[(n-1)/8]>>(7-(n-1)%8)&1
	}
	return level > 3, HazardLevel(level & 3)
}
'''), body(F45+"wind_shear.go", "func ReadWindShearV0(", '''
func ReadWindShearV0(data []byte) (bool, HazardLevel) {
	return readHazard(data, 4)
}
'''), body(F45+"micro_burst.go", "func ReadMicroBurstV0(", '''
func ReadMicroBurstV0(data []byte) (bool, HazardLevel) {
	return readHazard(data, 7)
}
'''), (F45+"micro_burst.go", 'import "github.com/twuillemin/modes/pkg/bitutils"\n', ''),
 body(F45+"icing.go", "func ReadIcingV0(", '''
func ReadIcingV0(data []byte) (bool, HazardLevel) {
	return readHazard(data, 10)
}
'''), body(F45+"wake_vortex.go", "func ReadWakeVortexV0(", '''
func ReadWakeVortexV0(data []byte) (bool, HazardLevel) {
	return readHazard(data, 13)
}
'''))
H62 = "pkg/bds/bds62/fields/selected_heading.go"
_h = open("/repo/"+H62).read()
ref("heading-int16", (H62, _h[_h.index("	negative := data[3]&0x02 != 0"):_h.index("	return heading * 180 / 256, status")], '''	heading := int16(bitutils.Pack2Bytes(data[3], data[4])<<6) >> 7

'''), (H62, "	return heading * 180 / 256, status", "	return float32(heading) * 0.703125, status"))
AR = "pkg/adsb/reader/reader.go"
_ar = open("/repo/"+AR).read()
_sw = _ar[_ar.index("	switch formatTypeCode {"):]
ref("adsb-map", (AR, _sw, '''	if read := readers[formatTypeCode]; read != nil {
		return read(adsbLevel, nicSupplementA, nicSupplementC, data)
	}

	return nil, fmt.Errorf("the formatTypeCode %v is not supported", formatTypeCode)
}

type readFunction func(adsb.ADSBVersion, bool, bool, []byte) (adsb.Message, error)

var readers = buildReaders()

func buildReaders() [32]readFunction {
	var result [32]readFunction
	result[0] = func(level adsb.ADSBVersion, _ bool, _ bool, data []byte) (adsb.Message, error) {
		if data[2]&0x0F == 0 && data[3] == 0 && data[4] == 0 && data[5] == 0 && data[6] == 0 {
			return no_position_information.ReadNoPositionInformation(level, data)
		}
		return airborne_position.ReadAirbornePositionType0(level, data)
	}
	for code := 1; code <= 4; code++ {
		result[code] = func(level adsb.ADSBVersion, _ bool, _ bool, data []byte) (adsb.Message, error) {
			return aircraft_identification_and_category.ReadAircraftIdentificationAndCategory(level, data)
		}
	}
	for code := 5; code <= 8; code++ {
		result[code] = func(level adsb.ADSBVersion, nicA bool, nicC bool, data []byte) (adsb.Message, error) {
			return surface_position.ReadSurfacePosition(level, data, nicA, nicC)
		}
	}
	for code := 9; code <= 22; code++ {
		result[code] = func(level adsb.ADSBVersion, nicA bool, _ bool, data []byte) (adsb.Message, error) {
			return airborne_position.ReadAirbornePosition(level, data, nicA)
		}
	}
	result[19] = func(level adsb.ADSBVersion, _ bool, _ bool, data []byte) (adsb.Message, error) {
		return airborne_velocity.ReadAirborneVelocity(level, data)
	}
	result[28] = func(level adsb.ADSBVersion, _ bool, _ bool, data []byte) (adsb.Message, error) {
		return aircraft_status.ReadAircraftStatus(level, data)
	}
	result[29] = func(level adsb.ADSBVersion, _ bool, _ bool, data []byte) (adsb.Message, error) {
		return target_state_and_status.ReadTargetStateAndStatus(level, data)
	}
	result[31] = func(level adsb.ADSBVersion, _ bool, _ bool, data []byte) (adsb.Message, error) {
		return aircraft_operational_status.ReadAircraftOperationalStatus(level, data)
	}
	return result
}
'''))
ref("adsb-no-position", (AR, "data[2]&0x0F == 0 && data[3] == 0 && data[4] == 0 && data[5] == 0 && data[6] == 0", "hasNoPosition(data)"),
 (AR, "// ReadADSBMessage reads and", '''// hasNoPosition tells whether the altitude kept aside all the bits after the second byte are zero
func hasNoPosition(data []byte) bool {
	for i, b := range data {
		switch {
		case i < 2:
			continue
		case i == 2:
			b &= 0x0F
		}
		if b > 0 {
			return false
		}
	}
	return true
}

// ReadADSBMessage reads and'''))
CD = "pkg/modes/fields/message_comm_d.go"
ref("commd-copy", (CD, '''	for i := 0; i < 10; i++ {
		data[i] = message.Payload[i]
	}

	return data
''', '''	copy(data, message.Payload[:10])

	return MessageCommD(data)
'''), body(CD, "func (messageCommD MessageCommD) ToString(", '''
func (messageCommD MessageCommD) ToString() string {
	return fmt.Sprintf("% X", []byte(messageCommD[:10]))
}
'''))
ref("commd-append", (CD, '''	data := make([]byte, 10)

	for i := 0; i < 10; i++ {
		data[i] = message.Payload[i]
	}

	return data
''', '''	return append(MessageCommD(nil), message.Payload[:10]...)
'''), body(CD, "func (messageCommD MessageCommD) ToString(", '''
func (messageCommD MessageCommD) ToString() string {
	values := make([]string, 0, 10)
	for _, b := range messageCommD[0:10] {
		values = append(values, fmt.Sprintf("%02X", b))
	}
	return strings.Join(values, " ")
}
'''), (CD, '	"github.com/twuillemin/modes/pkg/modes/common"\n', '	"github.com/twuillemin/modes/pkg/modes/common"\n	"strings"\n'))
D24 = "pkg/modes/messages/df24.go"
ref("df24-compare", (D24, "message.DownLinkFormat&0x18 != 0x18", "message.DownLinkFormat%32 < 24"))
MR = "pkg/modes/reader/reader.go"
ref("df24-default", (MR, '''	case 24, 25, 26, 27, 28, 29, 30, 31:
		// For DF24, only the first two bits of the generally used 5 bits
		// are possible. So use all combinations 24->31
		modeS, err = messages.ParseDF24(messageData)
	default:
		err =''', '''	default:
		// For DF24, only the first two bits of the generally used 5 bits
		// are possible. So use all combinations 24->31
		if messageData.DownLinkFormat>>3 == 3 {
			modeS, err = messages.ParseDF24(messageData)
			break
		}
		err ='''))
ref("message-split", (MR, '''	messageData := common.MessageData{
		DownLinkFormat: (message[0] & 0xF8) >> 3,
		FirstField:     message[0] & 0x07,
		Payload:        message[1 : len(message)-3],
		Parity:         message[len(message)-3:],
	}
''', '''	split := len(message) - 3
	body, parity := message[:split], message[split:]

	var messageData common.MessageData
	messageData.DownLinkFormat = body[0] / 8
	messageData.FirstField = body[0] % 8
	messageData.Payload = body[1:]
	messageData.Parity = parity
'''))
B08 = "pkg/bds/bds08/aircraft_identification_and_category.go"
_b8 = open("/repo/"+B08).read()
ref("category-constructors", (B08, _b8[_b8.index("	var category fields.AircraftCategory\n"):_b8.index("	// Get the codes")], '''	category := []func(byte) fields.AircraftCategory{
		func(code byte) fields.AircraftCategory { return fields.AircraftCategorySetD(code) },
		func(code byte) fields.AircraftCategory { return fields.AircraftCategorySetC(code) },
		func(code byte) fields.AircraftCategory { return fields.AircraftCategorySetB(code) },
		func(code byte) fields.AircraftCategory { return fields.AircraftCategorySetA(code) },
	}[formatTypeCode-1](data[0] & 0x07)

'''))
_codes = _b8[_b8.index("	// Get the codes"):_b8.index("	return &AircraftIdentificationAndCategory{")]
ref("callsign-word", (B08, _codes, '''	word := uint64(0)
	for _, b := range data[1:] {
		word = word<<8 | uint64(b)
	}

	chars := make([]byte, 8)
	for i := range chars {
		chars[7-i] = encoding.IdentificationCharacterCoding[word&63]
		word >>= 6
	}

'''))
ref("callsign-append8", (B08, _codes, '''	word := binary.BigEndian.Uint64(append([]byte{0}, data...))

	chars := make([]byte, 0, 8)
	for shift := 48; shift > 0; {
		shift -= 6
		chars = append(chars, encoding.IdentificationCharacterCoding[(word>>uint(shift))%64])
	}

'''), (B08, 'import (\n', 'import (\n	"encoding/binary"\n'))
ref("callsign-groups", (B08, _codes, '''	chars := make([]byte, 0, 8)
	for i := 1; i < 7; i += 3 {
		group := uint(data[i])<<16 + uint(data[i+1])<<8 + uint(data[i+2])
		for _, shift := range [...]uint{18, 12, 6, 0} {
			chars = append(chars, encoding.IdentificationCharacterCoding[group>>shift&0x3F])
		}
	}

'''))
EN = "pkg/bds/encoding/identification.go"
_en = open("/repo/"+EN).read()
ref("coding-built", (EN, _en[_en.index("var Ident"):], '''var IdentificationCharacterCoding = buildCoding()

func buildCoding() []byte {
	coding := make([]byte, 64)
	for i := range coding {
		switch {
		case i >= 1 && i <= 26:
			coding[i] = byte('A' + i - 1)
		case i == 32:
			coding[i] = ' '
		case 48 <= i && i < 58:
			coding[i] = byte('0' + i - 48)
		default:
			coding[i] = '#'
		}
	}
	return coding
}
'''))
ref("coding-string", (EN, _en[_en.index("var Ident"):], '''var IdentificationCharacterCoding = []byte("" +
	"#ABCDEFGHIJKLMNO" +
	"PQRSTUVWXYZ#####" +
	" ###############" +
	"0123456789######")
'''))
ref("coding-repeat", (EN, _en[_en.index("var Ident"):], '''var IdentificationCharacterCoding = []byte("#ABCDEFGHIJKLMNOPQRSTUVWXYZ" +
	strings.Repeat("#", 5) + " " + strings.Repeat("#", 15) + "0123456789" + strings.Repeat("#", 6))
'''), (EN, "package encoding\n", 'package encoding\n\nimport "strings"\n'))
B10 = "pkg/bds/bds10/data_link_capability_report.go"
_b10 = open("/repo/"+B10).read()
_c10 = _b10[_b10.index("	// If no ACAS, all ACAS info should be zeroed"):_b10.index("// ToString returns")]
ref("bds10-switch", (B10, _c10, '''	standby := message.ACASStatus == fields.ACASFailedOrStandBy

	switch {
	case standby && message.ACASHybridSurveillanceCapability != fields.ACASHybridSurveillanceNotCapable:
		return errors.New("field ACASStatus is FailedOrStandBy but ACASHybridSurveillanceCapability is not HybridSurveillanceNotCapable")
	case standby && message.ACASGenerationCapability != fields.ACASGenerationNotCapable:
		return errors.New("field ACASStatus is FailedOrStandBy but ACASGenerationCapability is not ACASGenerationNotCapable")
	case standby && message.ACASApplicableDocument != fields.ACASApplicableDocument185:
		return errors.New("field ACASStatus is FailedOrStandBy but ACASApplicableDocument is not ACASApplicableDocument185")
	case message.ACASApplicableDocument >= 3:
		return errors.New("field ACASApplicableDocument is a Reserved value")
	}

	for _, check := range [...]struct {
		name         string
		value, limit byte
	}{
		{"ModeSSubnetworkVersion", byte(message.ModeSSubnetworkVersion), 5},
		{"UplinkELMThroughputCapability", byte(message.UplinkELMThroughputCapability), 6},
		{"DownlinkELMThroughputCapability", byte(message.DownlinkELMThroughputCapability), 6},
	} {
		if check.value > check.limit {
			return fmt.Errorf("field %s is a Reserved value", check.name)
		}
	}

	return nil
}

'''))
B07 = "pkg/bds/bds07/status.go"
ref("bds07-range", (B07, '''	for i := uint(1); i < 7; i++ {
		if data[i] != 0 {
			return nil, errors.New("the bits 9 to 56 are reserved and must be 0")
		}
	}
''', '''	for _, reserved := range data[1:] {
		if reserved != 0 {
			return nil, errors.New("the bits 9 to 56 are reserved and must be 0")
		}
	}
'''))
ref("bds07-sum", (B07, '''	for i := uint(1); i < 7; i++ {
		if data[i] != 0 {
			return nil, errors.New("the bits 9 to 56 are reserved and must be 0")
		}
	}
''', '''	sum := 0
	for i := 1; i < len(data); i++ {
		sum += int(data[i])
	}
	if sum != 0 {
		return nil, errors.New("the bits 9 to 56 are reserved and must be 0")
	}
'''))
B40 = "pkg/bds/bds40/selected_vertical_intention.go"
ref("bds40-neither", (B40, "!message.MCPFCUSelectedAltitudeAvailable && !message.FMSSelectedAltitudeAvailable && !message.BarometricPressureSettingAvailable {", "!(message.MCPFCUSelectedAltitudeAvailable || message.FMSSelectedAltitudeAvailable || message.BarometricPressureSettingAvailable) {"),
 (B40, "message.BarometricPressureSetting != 800 {", "(message.BarometricPressureSetting < 800 || message.BarometricPressureSetting > 800) {"))
B60 = "pkg/bds/bds60/heading_and_speed_report.go"
_b60 = open("/repo/"+B60).read()
_c60 = _b60[_b60.index("	// If no data available, it is probably not coherent"):_b60.index("// ReadHeadingAndSpeedReport reads")]
ref("bds60-first-error", (B60, _c60, '''	if !message.MagneticHeadingStatus && !message.IndicatedAirSpeedStatus && !message.MachStatus && !message.BarometricAltitudeRateStatus && !message.InitialVerticalVelocityStatus {
		return errors.New("the message does not convey any information")
	}

	return firstError(
		absent(message.MagneticHeadingStatus, "magnetic heading", float64(message.MagneticHeading)),
		absent(message.IndicatedAirSpeedStatus, "indicated air speed", float64(message.IndicatedAirSpeed)),
		absent(message.MachStatus, "mach", float64(message.Mach)),
		absent(message.BarometricAltitudeRateStatus, "barometric altitude rate", float64(message.BarometricAltitudeRate)),
		absent(message.InitialVerticalVelocityStatus, "initial vertical velocity", float64(message.InitialVerticalVelocity)),
		within("indicated air speed", float64(message.IndicatedAirSpeed), 0, 500),
		within("mach", float64(message.Mach), 0, 1),
		within("barometric altitude rate", float64(message.BarometricAltitudeRate), -6000, 6000),
		within("initial vertical velocity", float64(message.InitialVerticalVelocity), -6000, 6000),
	)
}

func firstError(errs ...error) error {
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
}

func absent(status bool, name string, value float64) error {
	if status || value == 0 {
		return nil
	}
	return fmt.Errorf("the %[1]s status is set to false, but a %[1]s value is given", name)
}

func within(name string, value, min, max float64) error {
	if min <= value && value <= max {
		return nil
	}
	return fmt.Errorf("the %s is not between %v and %v", name, min, max)
}

'''))
CM = "cmd/main.go"
ref("cli-defer-newline", (CM, '''	// For message with additional content
	switch''', '''	defer fmt.Printf("\\n")

	// For message with additional content
	switch'''), (CM, '''	default:
		fmt.Printf("\\n")
	}

	fmt.Printf("\\n")
}
''', '''	default:
		fmt.Printf("\\n")
	}
}
'''))
ref("cli-messages-join", (CM, '''		for i, message := range messages {
			if i > 0 {
				fmt.Printf("-------------------------------\\n")
			}
			fmt.Printf("%v\\n", message.ToString())
		}
''', '''		var texts []string
		for _, message := range messages {
			texts = append(texts, message.ToString()+"\\n")
		}
		fmt.Print(strings.Join(texts, "-------------------------------\\n"))
'''), (CM, '	"os"\n', '	"os"\n	"strings"\n'))
ref("cli-print-switch", (CM, '''	if messageDF18.ControlField == modeSFields.ControlFieldADSB ||
		messageDF18.ControlField == modeSFields.ControlFieldADSBReserved {
		processADSBMessage(messageDF18.MessageExtendedSquitter, adsbVersion)
	} else if messageDF18.ControlField == modeSFields.ControlFieldTISBFineFormat ||
		messageDF18.ControlField == modeSFields.ControlFieldTISBCoarseFormat ||
		messageDF18.ControlField == modeSFields.ControlFieldTISBReservedManagement ||
		messageDF18.ControlField == modeSFields.ControlFieldTISBRelayADSB {

		fmt.Printf(" -- TISB Information --\\n")
		fmt.Printf("Not implemented\\n")
	}
''', '''	switch field := messageDF18.ControlField; field {
	default:
		return
	case modeSFields.ControlFieldADSBReserved:
		fallthrough
	case modeSFields.ControlFieldADSB:
		processADSBMessage(messageDF18.MessageExtendedSquitter, adsbVersion)
	case modeSFields.ControlFieldTISBFineFormat, modeSFields.ControlFieldTISBCoarseFormat,
		modeSFields.ControlFieldTISBReservedManagement, modeSFields.ControlFieldTISBRelayADSB:
		fmt.Print(" -- TISB Information --\\n", "Not implemented\\n")
	}
'''))
ref("cli-vds", (CM, '''	vds1 := (messageDF16.MessageACAS[0] & 0xF0) >> 4
	vds2 := messageDF16.MessageACAS[0] & 0x0F

	if vds1 == 3 && vds2 == 0 {

		// Read the ACAS content
		messageACAS, errACAS := resolutionAdvisory.ReadResolutionAdvisory(messageDF16.MessageACAS[1:])
		if errACAS != nil {
			fmt.Println(errACAS)
			return
		}

		fmt.Printf("%v\\n", messageACAS.ToString())
	} else {
		fmt.Printf("Unknown message type: [%X:%X]\\n", vds1, vds2)
	}
''', '''	vds := messageDF16.MessageACAS[0]
	if vds != 0x30 {
		text := fmt.Sprintf("%02X", vds)
		fmt.Println("Unknown message type: [" + text[:1] + ":" + text[1:] + "]")
		return
	}

	// Read the ACAS content
	messageACAS, errACAS := resolutionAdvisory.ReadResolutionAdvisory(messageDF16.MessageACAS[1:])
	if errACAS != nil {
		fmt.Println(errACAS)
		return
	}

	fmt.Println(messageACAS.ToString())
'''))
CB = "pkg/commb/reader.go"
_cb = open("/repo/"+CB).read()
_list = _cb[_cb.index("	messages := make([]bds.Message, 0, 10)"):_cb.index("	return coherentMessages, nil")]
ref("commb-add-closure", (CB, _list, '''	coherentMessages := make([]bds.Message, 0, 10)
	add := func(message bds.Message, err error) {
		if err != nil || message.CheckCoherency() != nil {
			return
		}
		coherentMessages = append(coherentMessages, message)
	}

	// Force analysis on all know types
	{
		m, err := bds10.ReadDataLinkCapabilityReport(data)
		add(m, err)
	}
	{
		m, err := bds17.ReadCommonUsageGICBCapabilityReport(data)
		add(m, err)
	}
	{
		m, err := bds30.ReadACASResolutionAdvisory(data)
		add(m, err)
	}
	{
		m, err := bds40.ReadSelectedVerticalIntention(data)
		add(m, err)
	}
	add(bds44.ReadMeteorologicalRoutineAirReport(data))
	add(bds45.ReadMeteorologicalHazardReport(data))
	{
		m, err := bds50.ReadTrackAndTurnReport(data)
		add(m, err)
	}
	{
		m, err := bds60.ReadHeadingAndSpeedReport(data)
		add(m, err)
	}

'''))
ref("commb-inplace-filter", (CB, '''	coherentMessages := make([]bds.Message, 0, len(messages))
	for _, message := range messages {
		if message.CheckCoherency() == nil {
			coherentMessages = append(coherentMessages, message)
		}
	}
''', '''	coherentMessages := messages[:0]
	for _, message := range messages {
		if message.CheckCoherency() != nil {
			continue
		}
		coherentMessages = append(coherentMessages, message)
	}
'''))
GS = "pkg/bds/bds09/airborne_velocity_ground_speed_supersonic.go"
ref("sup-components",
    body(GS, "func (message AirborneVelocityGroundSpeedSupersonic) GetSpeed(", '''
func (message AirborneVelocityGroundSpeedSupersonic) GetSpeed() (uint32, error) {
	east, north, err := message.components()
	if err != nil {
		return 0, err
	}
	return uint32(math.Sqrt(east*east + north*north)), nil
}

// components gives the signed velocities toward the east and the north
func (message AirborneVelocityGroundSpeedSupersonic) components() (east, north float64, err error) {
	switch {
	case message.VelocityEWStatus != fields.NVSRegular:
		err = errors.New("velocity EW is not regular")
	case message.VelocityNSStatus != fields.NVSRegular:
		err = errors.New("velocity NS is not regular")
	default:
		east, north = float64(message.VelocityEW), float64(message.VelocityNS)
		if message.DirectionEastWest == fields.DEWWest {
			east *= -1
		}
		if message.DirectionNorthSouth == fields.DNSSouth {
			north *= -1
		}
	}
	return
}
'''), body(GS, "func (message AirborneVelocityGroundSpeedSupersonic) GetTrack(", '''
func (message AirborneVelocityGroundSpeedSupersonic) GetTrack() (float32, error) {
	east, north, err := message.components()
	if err != nil {
		return 0, err
	}
	track := math.Atan2(east, north) * (180 / math.Pi)
	if track >= 0 {
		return float32(track), nil
	}
	return float32(track + 360), nil
}
'''))
B5 = "pkg/bds/bds05/airborne_position.go"
ref("b05-fprintf",
    body(B5, "func (message AirbornePosition) ToString(", '''
func (message AirbornePosition) ToString() string {
	sb := &strings.Builder{}
	line := func(label string, value interface{}) {
		fmt.Fprintf(sb, "\\n%s%v", label, value)
	}
	fmt.Fprintf(sb, "Message:                           %v", message.GetRegister().ToString())
	line("Format Type Code:                  ", message.FormatTypeCode)
	line("Surveillance Status:               ", message.SurveillanceStatus.ToString())
	line("Single Antenna Flag:               ", message.SingleAntennaFlag.ToString())
	line("Altitude Source:                   ", message.AltitudeSource.ToString())
	line("Altitude Report Method:            ", message.AltitudeReportMethod.ToString())
	line("Altitude (feet):                   ", message.AltitudeInFeet)
	line("Time:                              ", message.Time.ToString())
	line("Compact Position Reporting Format: ", message.CPRFormat.ToString())
	line("Encoded Latitude:                  ", message.EncodedLatitude)
	line("Encoded Longitude:                 ", message.EncodedLongitude)
	return sb.String()
}
'''), (B5, 'import (\n	"fmt"\n', 'import (\n	"fmt"\n	"strings"\n\n'))
ref("b05-padlabel",
    body(B5, "func (message AirbornePosition) ToString(", '''
func (message AirbornePosition) ToString() string {
	rows := []struct {
		label string
		value interface{}
	}{
		{"Message:", message.GetRegister().ToString()},
		{"Format Type Code:", message.FormatTypeCode},
		{"Surveillance Status:", message.SurveillanceStatus.ToString()},
		{"Single Antenna Flag:", message.SingleAntennaFlag.ToString()},
		{"Altitude Source:", message.AltitudeSource.ToString()},
		{"Altitude Report Method:", message.AltitudeReportMethod.ToString()},
		{"Altitude (feet):", message.AltitudeInFeet},
		{"Time:", message.Time.ToString()},
		{"Compact Position Reporting Format:", message.CPRFormat.ToString()},
		{"Encoded Latitude:", message.EncodedLatitude},
		{"Encoded Longitude:", message.EncodedLongitude},
	}
	lines := make([]string, 0, len(rows))
	for _, row := range rows {
		lines = append(lines, fmt.Sprintf("%-35s%v", row.label, row.value))
	}
	return strings.Join(lines, "\\n")
}
'''), (B5, 'import (\n	"fmt"\n', 'import (\n	"fmt"\n	"strings"\n\n'))
ref("b05-typecode",
    (B5, "if formatTypeCode < 9 || formatTypeCode > 22 || formatTypeCode == 19 {", "if !isAirbornePosition(formatTypeCode) {"),
    (B5, "// ReadAirbornePosition reads", '''func isAirbornePosition(formatTypeCode byte) bool {
	return 9 <= formatTypeCode && formatTypeCode <= 18 || 20 <= formatTypeCode && formatTypeCode <= 22
}

// ReadAirbornePosition reads'''))
P1 = "pkg/adsb/airborne_position/airborne_position_v1.go"
ref("hcr1-map",
    body(P1, "func getHCRAndNICForV1(", '''
type hcrKey struct {
	code  byte
	nicSA bool
}

type hcrNic struct {
	hcr fields.HorizontalContainmentRadiusV1
	nic byte
}

func getHCRAndNICForV1(formatTypeCode byte, nicSupplementA bool) (fields.HorizontalContainmentRadiusV1, byte) {
	supplemented := map[hcrKey]hcrNic{
		{11, true}:  {fields.HCRBaroV1RcLowerThan75MAndVPLLowerThan112M, 9},
		{11, false}: {fields.HCRBaroV1RcLowerThan0Point1NM, 8},
		{13, true}:  {fields.HCRBaroV1RcLowerThan0Point6NM, 6},
		{13, false}: {fields.HCRBaroV1RcLowerThan0Point5NM, 6},
		{16, true}:  {fields.HCRBaroV1RcLowerThan4NM, 3},
		{16, false}: {fields.HCRBaroV1RcLowerThan8NM, 2},
	}
	plain := map[byte]hcrNic{
		9:  {fields.HCRBaroV1RcLowerThan7Point5MAndVPLLowerThan11M, 11},
		10: {fields.HCRBaroV1RcLowerThan25MAndVPLLowerThan37Point5M, 10},
		12: {fields.HCRBaroV1RcLowerThan0Point2NM, 7},
		14: {fields.HCRBaroV1RcLowerThan1Point0NM, 5},
		15: {fields.HCRBaroV1RcLowerThan2NM, 4},
		17: {fields.HCRBaroV1RcLowerThan20NM, 1},
		18: {fields.HCRBaroV1RcGreaterThan20NM, 0},
		20: {fields.HCRGNSSV1RcLowerThan7Point5MAndVPLLowerThan11M, 11},
		21: {fields.HCRGNSSV1RcLowerThan25MAndVPLLowerThan37Point5M, 10},
	}
	if found, ok := supplemented[hcrKey{formatTypeCode, nicSupplementA}]; ok {
		return found.hcr, found.nic
	}
	if found, ok := plain[formatTypeCode]; ok {
		return found.hcr, found.nic
	}
	return fields.HCRGNSSV1RcGreaterThan25MOrVPLGreaterThan37Point5MOrUnknown, 0
}
'''))
ref("hcr1-nic-split",
    body(P1, "func getHCRAndNICForV1(", '''
func getHCRAndNICForV1(formatTypeCode byte, nicSupplementA bool) (fields.HorizontalContainmentRadiusV1, byte) {
	return getHCRForV1(formatTypeCode, nicSupplementA), getNICForV1(formatTypeCode, nicSupplementA)
}

func getNICForV1(formatTypeCode byte, nicSupplementA bool) byte {
	switch formatTypeCode {
	case 9, 20:
		return 11
	case 10, 21:
		return 10
	case 11:
		if nicSupplementA {
			return 9
		}
		return 8
	case 12, 13, 14, 15:
		return 19 - formatTypeCode
	case 16:
		if !nicSupplementA {
			return 2
		}
		return 3
	case 17:
		return 1
	}
	return 0
}

func getHCRForV1(formatTypeCode byte, nicSupplementA bool) fields.HorizontalContainmentRadiusV1 {
	pick := func(with, without fields.HorizontalContainmentRadiusV1) fields.HorizontalContainmentRadiusV1 {
		if nicSupplementA {
			return with
		}
		return without
	}
	switch formatTypeCode {
	case 9:
		return fields.HCRBaroV1RcLowerThan7Point5MAndVPLLowerThan11M
	case 10:
		return fields.HCRBaroV1RcLowerThan25MAndVPLLowerThan37Point5M
	case 11:
		return pick(fields.HCRBaroV1RcLowerThan75MAndVPLLowerThan112M, fields.HCRBaroV1RcLowerThan0Point1NM)
	case 12:
		return fields.HCRBaroV1RcLowerThan0Point2NM
	case 13:
		return pick(fields.HCRBaroV1RcLowerThan0Point6NM, fields.HCRBaroV1RcLowerThan0Point5NM)
	case 14:
		return fields.HCRBaroV1RcLowerThan1Point0NM
	case 15:
		return fields.HCRBaroV1RcLowerThan2NM
	case 16:
		return pick(fields.HCRBaroV1RcLowerThan4NM, fields.HCRBaroV1RcLowerThan8NM)
	case 17:
		return fields.HCRBaroV1RcLowerThan20NM
	case 18:
		return fields.HCRBaroV1RcGreaterThan20NM
	case 20:
		return fields.HCRGNSSV1RcLowerThan7Point5MAndVPLLowerThan11M
	case 21:
		return fields.HCRGNSSV1RcLowerThan25MAndVPLLowerThan37Point5M
	default:
		return fields.HCRGNSSV1RcGreaterThan25MOrVPLGreaterThan37Point5MOrUnknown
	}
}
'''))
ref("hcr1-grid",
    body(P1, "func getHCRAndNICForV1(", '''
func getHCRAndNICForV1(formatTypeCode byte, nicSupplementA bool) (fields.HorizontalContainmentRadiusV1, byte) {
	type pair struct {
		hcr fields.HorizontalContainmentRadiusV1
		nic byte
	}
	table := [32][2]pair{}
	for i := range table {
		table[i][0].hcr = fields.HCRGNSSV1RcGreaterThan25MOrVPLGreaterThan37Point5MOrUnknown
		table[i][1] = table[i][0]
	}
	both := func(code byte, hcr fields.HorizontalContainmentRadiusV1, nic byte) {
		table[code] = [2]pair{{hcr, nic}, {hcr, nic}}
	}
	both(9, fields.HCRBaroV1RcLowerThan7Point5MAndVPLLowerThan11M, 11)
	both(10, fields.HCRBaroV1RcLowerThan25MAndVPLLowerThan37Point5M, 10)
	table[11] = [2]pair{{fields.HCRBaroV1RcLowerThan0Point1NM, 8}, {fields.HCRBaroV1RcLowerThan75MAndVPLLowerThan112M, 9}}
	both(12, fields.HCRBaroV1RcLowerThan0Point2NM, 7)
	table[13] = [2]pair{{fields.HCRBaroV1RcLowerThan0Point5NM, 6}, {fields.HCRBaroV1RcLowerThan0Point6NM, 6}}
	both(14, fields.HCRBaroV1RcLowerThan1Point0NM, 5)
	both(15, fields.HCRBaroV1RcLowerThan2NM, 4)
	table[16] = [2]pair{{fields.HCRBaroV1RcLowerThan8NM, 2}, {fields.HCRBaroV1RcLowerThan4NM, 3}}
	both(17, fields.HCRBaroV1RcLowerThan20NM, 1)
	both(18, fields.HCRBaroV1RcGreaterThan20NM, 0)
	both(20, fields.HCRGNSSV1RcLowerThan7Point5MAndVPLLowerThan11M, 11)
	both(21, fields.HCRGNSSV1RcLowerThan25MAndVPLLowerThan37Point5M, 10)
	column := 0
	if nicSupplementA {
		column = 1
	}
	found := table[formatTypeCode&0x1F][column]
	return found.hcr, found.nic
}
'''))
H1 = "pkg/bds/bds45/meteorological_hazard_report_v1.go"
ref("hz1-rules",
    body(H1, "func (message MeteorologicalHazardReportV1) CheckCoherency(", '''
func (message MeteorologicalHazardReportV1) CheckCoherency() error {
	type rule struct {
		status, given bool
		name          string
	}
	rules := []rule{
		{message.TurbulenceStatus, message.TurbulenceAverageEDR != 0 || message.TurbulencePeakEDR != 0 || message.TurbulencePeakDelayInterval != 0, "turbulence"},
		{message.WindShearStatus, message.WindShear != fields.HLNil, "wind shear"},
		{message.MicroBurstStatus, message.MicroBurst != fields.HLNil, "micro burst"},
		{message.IcingStatus, message.Icing != fields.HLNil, "icing"},
		{message.WakeVortexStatus, message.WakeVortex != fields.HLNil, "wake vortex"},
		{message.AverageStaticPressureStatus, message.AverageStaticPressure != 0, "average static pressure"},
		{message.RadioHeightStatus, message.RadioHeight != 0, "radio height"},
	}
	any := message.StaticAirTemperatureStatus
	for _, r := range rules {
		any = any || r.status
	}
	if !any {
		return errors.New("the message does not convey any information")
	}
	for _, r := range rules {
		if r.given && !r.status {
			return errors.New("the " + r.name + " status is set to false, but a value is given")
		}
	}
	if t := message.StaticAirTemperature; message.StaticAirTemperatureStatus && !(t >= -80 && t <= 60) {
		return errors.New("the static air temperature is to high or to low (-80 <= temp <= 60)")
	}
	return nil
}
'''))
ref("hz1-min",
    body("pkg/bds/bds45/fields/turbulence.go", "func ReadTurbulenceV1(", '''
func ReadTurbulenceV1(data []byte) (bool, float32, float32, byte) {
	return data[4]&0x04 != 0,
		edr(data[4]&0x03<<4 | data[5]>>4),
		edr(data[5]&0x0F<<2 | data[6]>>6),
		data[6] >> 2 & 0x0F
}

// edr gives the metric of a code of 6 bits
func edr(code byte) float32 {
	if value := float32(code) * 0.02; value <= 1.26 {
		return value
	}
	return 1.26
}
'''), ("pkg/bds/bds45/fields/turbulence.go", 'import "github.com/twuillemin/modes/pkg/bitutils"\n', ''))
ARA = "pkg/acas/ra/fields/active_resolution_advisory_multiple_threats.go"
ref("ara-multi-shift",
    body(ARA, "func ReadARAMultipleThreatsDifferentSeparation(", '''
func ReadARAMultipleThreatsDifferentSeparation(data []byte) *ActiveRAMultipleThreatsDifferentSeparation {
	advisory := ActiveRAMultipleThreatsDifferentSeparation{}
	for i, flag := range []*bool{
		&advisory.RequiresCorrectionUpwardSense,
		&advisory.RequiresPositiveClimb,
		&advisory.RequiresCorrectionDownwardSense,
		&advisory.RequiresPositiveDescend,
		&advisory.RequiresCrossing,
		&advisory.IsSenseReversal,
	} {
		*flag = data[0]>>uint(6-i)&1 == 1
	}
	return &advisory
}
'''))
NS = "pkg/bds/bds09/fields/velocity_ns.go"
ref("ns-factor",
    body(NS, "func ReadVelocityNSNormal(", '''
func ReadVelocityNSNormal(data []byte) (uint16, NumericValueStatus) {
	return readNS(data, 1, 1023)
}

func readNS(data []byte, step, most uint16) (value uint16, status NumericValueStatus) {
	switch code := bitutils.Pack2Bytes(data[3]&0x7F, data[4]) >> 5; code {
	case 0:
		status = NVSNoInformation
	case 1023:
		value, status = most, NVSMaximum
	default:
		value, status = step*(code-1), NVSRegular
	}
	return value, status
}
'''),
    body(NS, "func ReadVelocityNSSupersonic(", '''
func ReadVelocityNSSupersonic(data []byte) (uint16, NumericValueStatus) {
	return readNS(data, 4, 4088)
}
'''))
ref("ns-bool-dir",
    body(NS, "func ReadDirectionNorthSouth(", '''
func ReadDirectionNorthSouth(data []byte) DirectionNorthSouth {
	if int8(data[3]) < 0 {
		return DNSSouth
	}
	return DNSNorth
}
'''))
GL = "pkg/bds/bds65/fields/gps_antenna_lateral.go"
ref("lat-compute",
    body(GL, "func (data GPSAntennaLateral) ToString(", '''
func (data GPSAntennaLateral) ToString() string {
	switch {
	case data == GLATNoData:
		return "0 - no data"
	case data == GLATRight0Meter:
		return "4 - direction right, 0 meter"
	case data < GLATRight0Meter:
		return fmt.Sprintf("%d - direction left, %d meters", data, 2*data)
	case data <= GLATRight6Meters:
		return fmt.Sprintf("%d - direction right, %d meters", data, 2*(data-GLATRight0Meter))
	}
	return fmt.Sprintf("%d - Unknown code", data)
}
'''))
D20 = "pkg/modes/messages/df20.go"
ref("df20-new",
    body(D20, "func ParseDF20(", '''
func ParseDF20(message common.MessageData) (*MessageDF20, error) {
	if message.DownLinkFormat != 20 {
		return nil, errors.New("DF20 message must have a DownLinkFormat of 20")
	}
	if len(message.Payload) != 10 {
		return nil, errors.New("DF20 message must be 14 bytes long")
	}
	m := new(MessageDF20)
	var err error
	if m.Altitude, m.AltitudeReportMethod, err = fields.ReadAltitude(message); err != nil {
		return nil, fmt.Errorf("the field Altitude is not readable: %v", err)
	}
	m.MessageData = message
	m.FlightStatus = fields.ReadFlightStatus(m.MessageData)
	m.DownlinkRequest = fields.ReadDownlinkRequest(m.MessageData)
	m.UtilityMessage = fields.ReadUtilityMessage(m.MessageData)
	m.MessageCommB = fields.ReadMessageCommB(m.MessageData)
	return m, nil
}
'''))
NP = "pkg/adsb/no_position_information/no_position_information.go"
ref("nopos-copy",
    (NP, "dataTmp := []byte{0x78, data[1], data[2], 0, 0, 0, 0}", "dataTmp := make([]byte, len(data))\n	dataTmp[0] = 15 << 3\n	copy(dataTmp[1:3], data[1:])"))
ref("b30-switch",
    body("pkg/bds/bds30/acas_resolution_advisory.go", "func ReadACASResolutionAdvisory(", '''
func ReadACASResolutionAdvisory(data []byte) (message *ACASResolutionAdvisory, err error) {
	var advisory *ra.ResolutionAdvisory
	switch {
	case len(data) != 7:
		err = errors.New("the data for Comm-B ACASResolutionAdvisory message must be 7 bytes long")
	case data[0]>>4 != 3 || data[0]&0x0F != 0:
		err = errors.New("the first byte of data is not 0x30")
	default:
		advisory, err = ra.ReadResolutionAdvisory(data[1:len(data)])
	}
	if err == nil {
		message = &ACASResolutionAdvisory{*advisory}
	}
	return message, err
}
'''))
RI = "pkg/modes/fields/reply_information_air_air.go"
ref("ri-array",
    body(RI, "func (replyInformationAirAir ReplyInformationAirAir) ToString(", '''
func (replyInformationAirAir ReplyInformationAirAir) ToString() string {
	names := [...]string{
		ReplyInformationNoOperatingACAS:                     "No Operating ACAS",
		ReplyInformationReservedACAS1:                       "Reserved ACAS",
		ReplyInformationACASResolutionProhibited:            "ACAS with resolution capability inhibited",
		ReplyInformationACASVerticalOnlyResolution:          "ACAS with vertical-only resolution capability",
		ReplyInformationACASVerticalAndHorizontalResolution: "ACAS with vertical and horizontal resolution capability",
		ReplyInformationReservedACAS5:                       "Reserved ACAS",
		ReplyInformationReservedACAS6:                       "Reserved ACAS",
		ReplyInformationReservedACAS7:                       "Reserved ACAS",
		ReplyInformationMaximumAirSpeedNotAvailable:         "Maximum Air Speed Not Available",
		ReplyInformationMaximumAirSpeed0To140:               "Maximum Air Speed 0 To 140 km/h (75 kt)",
		ReplyInformationMaximumAirSpeed140To280:             "Maximum AirSpeed 140 To 280 km/h (75 and 150 kt)",
		ReplyInformationMaximumAirSpeed280To560:             "Maximum AirSpeed 280 To 560 km/h (150 and 300 kt)",
		ReplyInformationMaximumAirSpeed560To1110:            "Maximum AirSpeed 560 To 1110 km/h (300 and 600 kt)",
		ReplyInformationMaximumAirSpeed1110To2220:           "Maximum AirSpeed 1110 To 2220 km/h (600 and 1 200 kt)",
		ReplyInformationMaximumAirSpeedOver2220:             "Maximum Air Speed Over 2220 km/h (1 200 kt)",
		ReplyInformationNotAssigned:                         "Not Assigned",
	}
	code := int(replyInformationAirAir)
	if code < 0 || code >= len(names) {
		return strconv.Itoa(code) + " - Unknown code"
	}
	return strconv.Itoa(code) + " - " + names[code]
}
'''), (RI, '	"fmt"\n', '	"strconv"\n\n'))
ref("ri-read16",
    body(RI, "func ReadReplyInformationAirAir(", '''
func ReadReplyInformationAirAir(message common.MessageData) ReplyInformationAirAir {
	word := int(message.Payload[0])<<8 + int(message.Payload[1])

	return ReplyInformationAirAir(word / 128 % 16)
}
'''))
FS = "pkg/modes/fields/flight_status.go"
ref("fs-words",
    body(FS, "func (flightStatus FlightStatus) ToString(", '''
func (flightStatus FlightStatus) ToString() string {
	switch {
	case flightStatus < FlightStatusNoAlertNoSPIAirborne || flightStatus > FlightStatusNotAssigned:
		return fmt.Sprintf("%v - Unknown code", int(flightStatus))
	case flightStatus >= FlightStatusReserved:
		return fmt.Sprintf("%v - Reserved", int(flightStatus))
	}
	alert, spi, place := "No Alert", "No SPI", "Airborne"
	if flightStatus >= FlightStatusAlertNoSPIAirborne {
		alert = "Alert"
	}
	if flightStatus >= FlightStatusAlertSPIAirborne {
		spi = "SPI"
	}
	if flightStatus%2 != 0 {
		place = "On The Ground"
	}
	return fmt.Sprintf("%v - %s, %s, %s", int(flightStatus), alert, spi, place)
}
'''))
UM = "pkg/modes/fields/utility_message.go"
ref("um-cut",
    body(UM, "func ReadUtilityMessage(", '''
func ReadUtilityMessage(message common.MessageData) UtilityMessage {
	um := (message.Payload[0]<<5 | message.Payload[1]>>3) >> 2

	return UtilityMessage{
		InterrogatorIdentifier: um >> 2,
		IdentifierDesignator:   UtilityMessageIdentifierDesignator(um & 3),
	}
}
'''))
M442 = "pkg/bds/bds44/meteorological_routine_air_report_v2.go"
ref("m442-helper",
    body(M442, "func (message MeteorologicalRoutineAirReportV2) CheckCoherency(", '''
func (message MeteorologicalRoutineAirReportV2) CheckCoherency() error {
	empty := true
	var failure error
	check := func(name string, status, given bool) {
		if status {
			empty = false
		} else if given && failure == nil {
			failure = fmt.Errorf("the %s status is set to false, but a %s value is given", name, name)
		}
	}
	check("wind speed", message.WindSpeedStatus, message.WindSpeed != 0)
	check("wind direction", message.WindDirectionStatus, message.WindDirection != 0)
	check("static air temperature", message.StaticAirTemperatureStatus, message.StaticAirTemperature != 0)
	check("average static pressure", message.AverageStaticPressureStatus, message.AverageStaticPressure != 0)
	check("humidity", message.HumidityStatus, message.Humidity != 0)

	switch {
	case message.Source >= 5:
		return errors.New("field Source is a Reserved value")
	case empty:
		return errors.New("the message does not convey any information")
	case failure != nil:
		return failure
	case message.WindSpeed > 250:
		return errors.New("the wind speed is too high (above 250 knots)")
	case message.StaticAirTemperature < -80, message.StaticAirTemperature > 60:
		return errors.New("the static air temperature is to high or to low (-80 <= temp <= 60)")
	}
	return nil
}
'''))

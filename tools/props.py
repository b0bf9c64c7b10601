def reg(id, title, statement, files, mech, observe, why=None, quant=None, note="", technique=TAB, over=("inputs",), state=()):
    prop(id, title, statement, quant or (ALL7 + ", and every other length where the reader takes bytes"),
         why or "The tests decode a few hand-made registers per format; the statement is about all 2^56 contents (and about every wrong length), so a wrong mask, shift, scale or sentinel shows only for contents no test contains.",
         files, mech, observe, technique, note, over, state)

prop("P01", "No input makes the library or the command line crash",
     "Reading any sequence of bytes, of any length, as a Mode S, ADS-B, Comm-B or ACAS content either gives a message or an error: it never panics. The same holds for printing any message that was read, for checking its coherency, for deriving its speed or track, for checking the parity of an accepted message, for every position and distance computation on any numbers, and for the command line on any line of text.",
     "every byte sequence of every length, every message a reader can produce, every number given to the geographic functions, every line of text",
     "Tests run a few dozen inputs; a panic needs one particular length, code combination or number (an index outside a slice, a nil optional part, an impossible conversion).",
     ["pkg/modes/reader/reader.go", "pkg/adsb/reader/reader.go", "pkg/commb/reader.go", "pkg/acas/ra/resolution_advisory.go", "pkg/geo", "cmd/main.go"],
     [("length guard before any index", "every Read function"), ("optional parts are nil unless their type code announces them", "pkg/acas/ra/resolution_advisory.go")],
     ["return of the readers", "String forms", "exit of the command line"],
     AI + ": one proof obligation per index, slice, dereference, type assertion, division, map write and explicit panic",
     "Stack exhaustion, memory exhaustion and panics of the operating system interface are not covered.")

prop("P02", "A reader gives a usable message or an error, never both and never neither",
     "Whenever a reader reports success, it returns a non-nil message (or, for Comm-B, a list of non-nil messages) on which every method can be called; whenever it reports an error, it returns no message (nil, or an interface holding a nil pointer).",
     "every content and every length, for every exported reader",
     "Tests check one or two accepted and rejected inputs per reader; the pairing must hold on every path of every reader.",
     ["pkg/modes/reader/reader.go", "pkg/adsb/reader/reader.go", "pkg/commb/reader.go", "pkg/bds"],
     [("each failing path returns nil and an error", "every Read function")],
     ["the results of the exported readers"],
     AI + ": nil-ness of both results related at every return")

prop("P03", "Decoding has no side effects and no hidden state",
     "Reading, printing, checking and computing never modify the bytes, maps or messages given to them, and never depend on or change anything kept between calls: the same input always gives the same result, whatever was decoded before and whatever other goroutines decode. The message bodies (extended squitter, Comm-B, ACAS and Comm-D content) of a Mode S message are the message's own: modifying the input bytes after the read does not change them (the raw payload and parity bytes stay views of the input). Nothing is printed, and no file or clock is used, except by the command line.",
     "every call history and every interleaving of calls from several goroutines, on every input",
     "A test makes one call at a time and looks at the result only; hidden state or aliasing shows only in longer histories or concurrent use.",
     ["pkg/modes/messages", "pkg/modes/fields", "pkg/adsb", "pkg/bds", "pkg/geo", "pkg/commb/reader.go"],
     [("no package variable is written after initialisation", "whole module"), ("bodies are copied from the input", "pkg/modes/fields/message_*.go")],
     ["the bytes given by the caller", "package variables", "results of repeated calls"],
     "effect analysis: writes, escapes and calls over go/ssa of every function, and abstract interpretation of every entry with the input marked read-only",
     over=("histories", "schedules", "inputs"))

prop("P04", "Each Mode S frame is classified by its length and downlink format",
     "A Mode S message of 7 bytes is read as downlink format 0, 4, 5 or 11, one of 14 bytes as 16, 17, 18, 19, 20, 21 or 24 (any first five bits from 24 to 31), as its first five bits announce, and reports that format's number and name. Every other length, format, or combination of both is an error, and so is a surveillance or Comm-B altitude reply whose altitude is a Gillham code that does not exist.",
     ALLM,
     "The tests have one sample per format; the classification quantifies over all first bytes and all lengths.",
     ["pkg/modes/reader/reader.go", "pkg/modes/messages"],
     [("switch on the first five bits", "ReadMessage"), ("length checks", "ParseDF*")],
     ["type of the returned message, GetDownLinkFormat, GetName, error"], TAB)

prop("P05", "Mode S header fields are the bits the standard places there",
     "Every field of a Mode S message other than altitude, identity code and parity (capability, flight status, downlink request, utility message, vertical status, sensitivity level, reply information, cross-link capability, control and application fields, announced address, Comm-D control and segment number, and the raw body, payload and parity bytes) is exactly the value of its bits of the message.",
     ALLM, "A test sets each field once; a mask or shift error shows only for other values or other neighbouring bits.",
     ["pkg/modes/fields", "pkg/modes/messages"], [("bit masks", "pkg/modes/fields/*.go")],
     ["fields of the returned message"], TAB)

prop("P06", "Mode S altitudes are decoded from all 13 bits by the right method",
     "The altitude of downlink formats 0, 4, 16 and 20 is: unknown when the 13 bits are zero; metric (not decoded, zero) when the M bit is set; otherwise, when the Q bit is set, 25 times the eleven other bits minus 1000 feet; otherwise the 100-foot Gillham code of the bits. The reported decoding method says which of the four cases applies, and a Gillham code that does not exist is an error.",
     "all 8192 codes inside every 7-byte and 14-byte message", "The tests try a handful of altitudes; the Gillham code alone has 2048 combinations.",
     ["pkg/modes/fields/altitude_code.go", "pkg/bitutils/gillham.go"], [("case split on zero, M, Q", "ReadAltitudeCode"), ("Gray code conversion", "GillhamToAltitude")],
     ["altitude and altitude method of the message"], TAB)

prop("P07", "Identity codes give the four octal digits and the emergency meanings",
     "The identity of downlink formats 5 and 21 is the number whose four decimal digits are the octal digits A, B, C, D interleaved in the 13 bits. It is reported as special emergency, radio failure, unlawful interference or no-instruction exactly for 7700, 7600, 7500 and 2000.",
     "all 8192 codes inside every message", "The tests try a few squawks out of 4096.",
     ["pkg/modes/fields/identity.go"], [("bit interleaving", "ReadIdentity")], ["identity of the message and its four predicates"], TAB)

prop("P08", "Parity verification computes the Mode S CRC over every message",
     "The parity of a message is the remainder of its bytes before the last three, under the 24-bit Mode S generator (FFF409). Extended squitters are accepted exactly when the last three bytes equal it, and then give the announced address; an all-call reply gives the exclusive-or of its parity and its last three bytes as interrogator code; every other format gives that exclusive-or as address.",
     "every accepted message of 7 and 14 bytes, all bits at once", "A test verifies some captured messages; linearity errors or a wrong length show for others only.",
     ["pkg/modes/reader/crc.go"], [("bitwise polynomial division", "computeParity")], ["address, interrogator or error of the parity check"],
     AI + ": each result bit compared with the exclusive-or of message bits that the polynomial prescribes")

prop("P09", "Allow-lists decide exactly which replies the parity check accepts",
     "The list of interrogator codes filters all-call replies only, the list of addresses filters every format except all-call replies and extended squitters; a nil or empty list accepts everything. A non-empty list accepts exactly the codes that are keys of it, whatever value is stored with the key, and a rejected reply gives an error.",
     "every message and every pair of allow-lists", "The tests use a couple of lists with matching or absent keys.",
     ["pkg/modes/reader/crc.go"], [("membership test", "checkCRCDF11, checkCRCOther")], ["error or acceptance of the parity check"],
     AI + " with symbolic maps")

prop("P10", "Each ADS-B squitter is decoded by type code, subtype and version",
     "An extended squitter body of 7 bytes is read according to its type code (0 no position or type-0 airborne, 1-4 identification, 5-8 surface position, 9-18 and 20-22 airborne position, 19 velocity, 28 aircraft status, 29 target state, 31 operational status), positions in the format of the ADS-B version the caller asked for, and operational status in the version its own bits announce; everything else is an error. The message states the version in which it was read.",
     "every 7-byte body and every other length, every version (also unsupported ones), both supplements", "The tests read one message per kind.",
     ["pkg/adsb/reader/reader.go", "pkg/adsb"], [("switch on the type code", "ReadADSBMessage")], ["type and version of the returned message, error"], TAB)

reg("P11", "Airborne positions carry the exact CPR, altitude and status bits",
    "An airborne position gives the surveillance status, antenna flag, time and format flags, the two 17-bit encoded coordinates, and its altitude in feet (25-foot code when the Q bit is set, otherwise the 100-foot Gillham code, an error if that does not exist), barometric for type codes 9-18 and 0, GNSS for 20-22. A type code 0 squitter with no position bits at all is 'no position information' with the same altitude; with position bits it is the same airborne position without integrity.",
    ["pkg/bds/bds05", "pkg/adsb/airborne_position", "pkg/adsb/no_position_information"], [("field readers", "pkg/bds/bds05/fields")], ["fields of the position message"])
reg("P12", "Surface positions carry movement, track, flags and CPR bits",
    "A surface position gives the movement code and the ground speed it stands for (the non-linear scale from 0.125 to 175 knots, zero for no information, stopped and reserved), the ground track of 360/128 degree with its validity, the time and format flags and both 17-bit encoded coordinates.",
    ["pkg/bds/bds06", "pkg/adsb/surface_position"], [("movement table", "pkg/bds/bds06/fields")], ["fields of the position message"])
reg("P13", "Integrity and containment follow type code, supplements and version",
    "The navigation integrity category and the containment radius of an airborne or surface position are the ones the standard's table gives for its type code, the supplements A, B and C in force, and the ADS-B version; version 0 gives the protection limit and containment bounds of the type code. Messages without position information have integrity zero.",
    ["pkg/adsb/airborne_position", "pkg/adsb/surface_position"], [("table by type code", "readers of the position messages")], ["category, radius, limits and bounds of the message"],
    quant="every 7-byte body, every version, both supplements given by the caller")
reg("P14", "Flight identification gives eight 6-bit characters and the emitter category",
    "The identification of an aircraft identification message (extended squitter type codes 1 to 4, and Comm-B register 2,0) is its eight 6-bit characters in order: letters, digits, space, and '#' for every code that is not allowed. The category set is chosen by the type code and the category is the three category bits; register 2,0 is accepted only with its identifier 20 hexadecimal.",
    ["pkg/bds/bds08", "pkg/bds/bds20", "pkg/bds/encoding"], [("character table", "pkg/bds/encoding")], ["identification, category and its set"])
reg("P15", "Velocity messages give speeds, rates and directions with their status",
    "Each airborne velocity squitter (subtypes 1 to 4) gives intent change, IFR capability, uncertainty, sources and directions from its bits, and each speed, heading, vertical rate and GNSS-barometric difference with a status: no information for code 0 (value 0), maximum for the greatest code (the limit value), otherwise regular with (code - 1) times its unit, signed where there is a sign bit. Speeds use 1 knot for normal and 4 knots for supersonic subtypes, vertical rates 64 ft/min, differences 25 ft, headings 360/1024 degree.",
    ["pkg/bds/bds09"], [("field readers", "pkg/bds/bds09/fields")], ["fields of the velocity messages"])
prop("P16", "Ground speed and track follow from the velocity components",
     "For a ground speed velocity message whose two components are regular, the derived ground speed is the square root of the sum of their squares (whole knots, rounded down) and the derived track is the angle clockwise from north of the signed components, from 0 to 360 degrees; if one component is not regular, both are errors. The printed report shows those same two values, or says that they are not computable.",
     "every pair of velocity components, directions and statuses, normal and supersonic", "The tests compute one or two tracks; a swapped argument or a sign error may agree with them.",
     ["pkg/bds/bds09"], [("square root and arc tangent", "GetSpeed, GetTrack")], ["derived speed and track, report lines"],
     AI + " with normal-form comparison of real-number expressions", "Rounding of the float operations themselves is not covered.")
reg("P17", "Emergency status squitters are decoded and validated exactly",
    "Extended squitter aircraft status: subtype 0 gives the emergency code and is accepted only if the rest of the content is zero, subtype 1 gives the emergency code and the 13 Mode A bits and is accepted only if the reserved bits are zero, subtype 2 is the resolution advisory broadcast, every other subtype or type code is an error.",
    ["pkg/bds/bds61", "pkg/adsb/aircraft_status"], [("reserved bit checks", "pkg/bds/bds61")], ["type and fields of the message, error"])
reg("P18", "Target state squitters give every selected value with its validity",
    "Target state and status subtype 0 gives the target altitude (100-foot steps from -1000) and target heading or track (whole degrees) with a status saying whether the code is in range, subtype 1 gives selected altitude (32-foot steps), barometric setting (0.8 millibar steps from 800) and selected heading (signed, 180/256 degree), each with its status; modes, integrity and accuracy categories are their bits. Any other subtype, and reserved bits set in subtype 0, are errors.",
    ["pkg/bds/bds62", "pkg/adsb/target_state_and_status"], [("field readers", "pkg/bds/bds62/fields")], ["fields of the message, error"])
reg("P19", "Operational status is decoded per version and subtype with reserved checks",
    "Aircraft operational status squitters give, for each of the five layouts (version 0; versions 1 and 2, airborne and surface), every capability class, operational mode, accuracy, integrity and quality field from its own bits, and are accepted only when version, subtype and the reserved bits of that layout are valid.",
    ["pkg/bds/bds65", "pkg/adsb/aircraft_operational_status"], [("layout by version and subtype", "ReadAircraftOperationalStatus")], ["type and fields of the message, error"])
reg("P20", "Resolution advisories decode the advisory and the threat identity",
    "An ACAS resolution advisory (air-air reply body, register 3,0, or extended squitter 6,1 subtype 2) gives the kind of advisory (one threat, several threats, none) with its sense and strength bits, the complements, terminated and multiple-threat flags, and the threat identity announced by the threat type: a 24-bit address for type 1; altitude, range and bearing for type 2; none otherwise. Threat altitude is the Gillham code (an error if it does not exist, no information if zero), range is (code - 1) / 10 nautical miles, bearing is 6 degrees times the code minus 3, with their special codes.",
    ["pkg/acas/ra", "pkg/bds/bds30", "pkg/bds/bds61"], [("threat type switch", "ReadResolutionAdvisory")], ["fields and optional parts of the advisory, error"])
reg("P21", "The data link capability report gives each capability from its own bits",
    "Register 1,0 is accepted exactly when its identifier is 10 hexadecimal and its reserved bits are zero, and then every flag, level, version and throughput field and the sixteen DTE sub-address bits are exactly the bits the standard assigns to them.",
    ["pkg/bds/bds10"], [("field readers", "pkg/bds/bds10/fields")], ["fields of the report, error"])
reg("P22", "The GICB capability report maps each register to its own bit",
    "Register 1,7 is accepted exactly when its reserved bits are zero, and reports for each of the 25 registers whether its own bit is set.",
    ["pkg/bds/bds17"], [("bit tests", "ReadCommonUsageGICBCapabilityReport")], ["flags of the report, error"])
reg("P23", "Selected vertical intention gives both altitudes, pressure and modes",
    "Register 4,0 is accepted exactly when its reserved bits are zero and gives the MCP/FCU and the FMS selected altitude (16-foot steps), the barometric setting (0.1 millibar steps from 800), their three availability bits, and the mode and target altitude source fields from their bits.",
    ["pkg/bds/bds40"], [("field readers", "pkg/bds/bds40/fields")], ["fields of the report, error"])
reg("P24", "Routine air reports give wind, temperature, pressure, humidity as coded",
    "A meteorological routine report (register 4,4, all three versions) gives the source, wind speed and direction, signed static air temperature, static pressure, turbulence and humidity with their status bits, each in the scale and the bits of its version; the version is chosen by the source bits.",
    ["pkg/bds/bds44"], [("field readers", "pkg/bds/bds44/fields")], ["fields of the report, error"])
reg("P25", "Hazard reports give every hazard level and measurement as coded",
    "A meteorological hazard report (register 4,5, both versions) gives turbulence, wind shear, microburst, icing and wake vortex levels, static air temperature, pressure and radio height with their status bits, each in the scale and bits of its version; the version is chosen by the reserved bits.",
    ["pkg/bds/bds45"], [("field readers", "pkg/bds/bds45/fields")], ["fields of the report, error"])
reg("P26", "Track-and-turn and heading-and-speed reports decode signed values",
    "Registers 5,0 and 6,0 give roll angle, track angle, ground speed, track rate, true airspeed, and magnetic heading, indicated airspeed, Mach, barometric and inertial vertical rate, each from its own bits, in two's complement where it is signed, in the scale of the standard, with its own status bit.",
    ["pkg/bds/bds50", "pkg/bds/bds60"], [("field readers", "pkg/bds/bds50/fields, pkg/bds/bds60/fields")], ["fields of the reports"])
reg("P27", "Coherency checks reject exactly the contradictory registers",
    "The coherency check of a message passes exactly when the content is self-consistent: for the Comm-B reports that carry status bits, at least one is set and a cleared status comes with an all-zero value, the values are within the documented limits (roll 50 degrees, speeds, rates, temperatures from -80 to 60, Mach 1) and no code is reserved; identifications contain only allowed characters and an assigned category. Messages without such rules are always coherent.",
    ["pkg/bds", "pkg/adsb"], [("status and value pairs", "CheckCoherency methods")], ["result of the coherency check of every readable message"])
prop("P28", "Comm-B interpretation lists exactly the coherent register formats",
     "Interpreting a 7-byte Comm-B content gives only 'no message' for all zeros, only the status register 0,7 or only the identification register 2,0 when the content is readable and coherent as such (tried in this order), and otherwise every format among registers 1,0 1,7 3,0 4,0 4,4 4,5 5,0 6,0 that can be read from it and is coherent, in this order, and none other. Any other length is an error.",
     ALL7 + ", and every other length", "The tests try some registers each of which has one interpretation; the list depends on all formats at once.",
     ["pkg/commb/reader.go", "pkg/bds/bds00", "pkg/bds/bds07"], [("ordered trial of formats", "ReadCommBMessage")], ["the returned list, error"],
     AI + ": the condition of each list element compared with acceptance and coherency of that format")
prop("P29", "Every message states its own register and its own ADS-B version",
     "Each register message and each ADS-B message reports the register number of its own format, and each register number prints as its own two digits and name; an ADS-B message reports the version of the format it was read in.",
     "every message a reader can produce", "The tests look at a few messages only.",
     ["pkg/bds", "pkg/adsb", "pkg/bds/register"], [("register constants", "pkg/bds/register")], ["register and version accessors, register text"], AI + " of the accessors of every readable message, compared with a reviewed table")
prop("P30", "Every coded value prints the text of its own code",
     "For every coded field of every message (status, type, category, capability, level, flag ...), each assigned code prints the text that describes that code and no other, and each unassigned code prints its number followed by 'Unknown code'. Fields without code table print their number, addresses their three bytes in hexadecimal, sub-address flags their sixteen bits in order, threat ranges and bearings the interval their code stands for.",
     "every value of the full range of every coded field", "The tests render the codes that occur in their samples.",
     ["pkg/modes/fields", "pkg/acas/ra/fields", "pkg/bds"], [("switch in each String form", "fields packages")], ["text of each coded value"],
     AI + " of each rendering over its whole code space, compared with a reviewed code table")
prop("P31", "Printed reports show, under each label, the value that label names",
     "The printed form of every message a reader gives is its reviewed list of lines, in order, and every line shows the value of the field its label names. Nested parts (advisories, capability classes, operational modes, optional threat data) are printed, indented, exactly when the message has them.",
     "every message a reader can give, including all optional parts", "The tests compare a few outputs or none; a line showing a neighbour's value goes unnoticed.",
     ["pkg/modes/messages", "pkg/adsb", "pkg/bds", "pkg/acas/ra"], [("format strings", "String forms of the messages")], ["printed report"],
     AI + " of each report on every message the readers give, compared with a reviewed template")
reg("P37", "No-message and status contents are recognised by their exact bits",
    "Register 0,0 (no message available) is accepted exactly when all 56 bits are zero. Register 0,7 is accepted exactly when bits 4 to 56 are zero, and then gives the transmission rate from bits 1-2 and the altitude type from bit 3; it is coherent exactly when the rate is not the reserved one.",
    ["pkg/bds/bds00", "pkg/bds/bds07"], [("zero tests", "ReadNoMessageAvailable, ReadStatus")], ["fields of the message, error, coherency"])
prop("P38", "Bit packing keeps its order and the Gillham conversion knows every code",
     "The packing functions give the number whose bits are their arguments in order, the first argument most significant (two, three and four bytes, eight and sixteen bits). The Gillham conversion gives, for its twelve bits D1 to C4, the altitude in feet of the code (500-foot Gray code, 100-foot reflected code, 1300 feet offset), and an error exactly for the codes whose C bits stand for no hundred (0, 5 and 6).",
     "all 2^16 to 2^32 arguments of each packing function, all 4096 Gillham codes",
     "The tests pack one or two values and convert a few altitudes; D1 is never set in them.",
     ["pkg/bitutils/bitutils.go", "pkg/bitutils/gillham.go"], [("bit order", "Pack2Bytes to Pack16Bits"), ("Gray code conversion", "GillhamToAltitude")],
     ["result and error of the functions"], TAB)
prop("P39", "Every call ends, and waits for nothing",
     "For every input, every exported reader, every method of what it gives (reports, coherency, derived values), the parity verification and every exported computation end: each loop stops after a number of steps limited by the sizes of the data formats, each recursion after a limited depth, and no call waits for a lock, a channel, a timer, another goroutine or input. The command line handles each line of its input and ends after the last one.",
     "every input of every entry point; every list of lines of the command line",
     "A test shows that its inputs end; a loop that does not advance for one bit pattern or one length hangs the program that decodes a stream.",
     ["pkg", "cmd/main.go"], [("loops and recursion", "every loop reachable from a reader, a method or main"), ("no waiting", "whole module")],
     ["the return of each call"],
     "abstract interpretation of every entry over go/ssa: every loop is followed until no input is left in it, every call to its return; effect analysis for operations that wait")
prop("P32", "Global airborne CPR decoding follows the standard's equations",
     "From an even and an odd airborne position, the global decoding gives the latitude and longitude of the later one according to the CPR equations (15 latitude zones per quadrant, zone index from both frames, southern latitudes from 270 degrees up mapped to negative, longitude zones from the latitude, longitudes above 180 mapped to negative). It gives an error instead of a position exactly when a latitude is beyond the pole or the two frames lie in different longitude zones. Positions are computed in double precision.",
     "all pairs of encoded coordinates and both orders of arrival", "The tests decode one or two known pairs.",
     ["pkg/geo/cpr_airborne_global_position.go", "pkg/geo/cpr_common.go"], [("CPR equations", "GetCPRAirborneGlobalPosition")], ["latitude, longitude, error"],
     AI + " with normal-form comparison of real-number expressions (floor, cosine, arc cosine uninterpreted)", "Decided as real-number equations; floating point rounding at zone limits is not covered.")
prop("P33", "Global surface CPR decoding picks the solution nearest the reference",
     "From an even and an odd surface position and a reference point, the global decoding gives the latitude of the later frame by the quadrant CPR equations (northern solution, or the southern one when the reference latitude is negative) and, of the four longitude solutions 90 degrees apart, the one with the smallest angular distance to the reference longitude, also across the antimeridian. It gives an error exactly when the two frames lie in different longitude zones. Positions are computed in double precision.",
     "all pairs of encoded coordinates, both orders, all reference points", "The tests decode one known pair near one airport.",
     ["pkg/geo/cpr_surface_global_position.go", "pkg/geo/cpr_common.go"], [("CPR equations", "GetCPRSurfaceGlobalPosition"), ("nearest of four", "GetCPRSurfaceGlobalPosition")], ["latitude, longitude, error"],
     AI + " with normal-form comparison of real-number expressions (floor, cosine, arc cosine uninterpreted)", "Decided as real-number equations; floating point rounding at zone limits is not covered.")
prop("P34", "Local CPR decoding follows the equations around the reference point",
     "From one airborne or surface position and a reference point, the local decoding gives the latitude and longitude by the CPR equations: zone size 360 (airborne) or 90 (surface) degrees over 60 or 59 zones for even or odd frames, zone index from the reference, longitude zone size from the decoded latitude and the parity of the frame (at least one zone). Positions are computed in double precision.",
     "all encoded coordinates, both parities, all reference points", "The tests decode one known position per function.",
     ["pkg/geo/cpr_airborne_local_position.go", "pkg/geo/cpr_surface_local_position.go", "pkg/geo/cpr_common.go"], [("CPR equations", "GetCPRAirborneLocalPosition, GetCPRSurfaceLocalPosition")], ["latitude, longitude"],
     AI + " with normal-form comparison of real-number expressions (floor, cosine, arc cosine uninterpreted)", "Decided as real-number equations; floating point rounding at zone limits is not covered.")
prop("P35", "Ground distance is the great-circle distance, for every pair of points",
     "The ground distance of two points is the haversine great-circle distance in metres on a sphere of radius 6371 km; it is never NaN for coordinates in range (latitudes from -90 to 90 degrees, longitudes from -360 to 360), including antipodal points. It is computed in double precision.",
     "all pairs of coordinates", "The tests compare two distances.",
     ["pkg/geo/ground_distance.go"], [("haversine formula", "ComputeGroundDistance")], ["the distance"],
     AI + " with normal-form comparison of real-number expressions (trigonometric functions uninterpreted)", "Decided as a real-number equation and a range argument for the square roots; rounding is not covered.")
prop("P36", "The command line prints the full decoding of each line, or the reason why not",
     "For each line of hexadecimal text the program prints the line, then either the reason why it cannot be decoded, or the address (or interrogator) it comes from and the report of the Mode S message, followed by the decoding of its content: the advisory of an air-air reply, the ADS-B message of an extended squitter (formats 17, and 18 with control field 0 or 1) in the requested version (0 unless asked otherwise), all interpretations of a Comm-B reply, or a note that the content is unknown or not implemented. The line is the first argument that is not a flag, or each line of the given file. A file that cannot be opened, or read to its end, makes the program fail and say why.",
     "every line of text and every message", "No test covers the program.",
     ["cmd/main.go"], [("dispatch by downlink format", "processSingleLine")], ["standard output"],
     AI + " with output recorded as effects, compared with the expected sequence of outputs", state=[("adsb_reader_level", "requested ADS-B version, 0 to 2")])

prop("P90", "CPR round trip: decoding an encoded position recovers it within resolution",
     "A position encoded by the CPR algorithm and decoded again (globally or locally, with a reference point in range) differs from the original by no more than the CPR resolution.",
     "all positions and reference points in range", "Tests have isolated positions.", ["pkg/geo"], [("CPR equations", "pkg/geo")], ["latitude, longitude"],
     None, "A numerical accuracy statement over floating point trigonometry (floor of arc-cosine quotients at zone limits): no sound static argument in reach bounds it. P32, P33, P34 decide the equations themselves.")
prop("P91", "Comm-B interpretation rarely lists a wrong format for real traffic",
     "On real Comm-B replies, the interpretation list contains the register that was actually requested, and seldom another one.",
     "the distribution of real traffic", "Depends on traffic, not on a sample.", ["pkg/commb/reader.go"], [("coherency heuristics", "CheckCoherency")], ["the returned list"],
     None, "A statistical statement about the distribution of real traffic, which the source does not determine. P27 and P28 decide the acceptance rules exactly.", over=("programs",))

package checks

// floors are the numbers of obligations confirmed on the reviewed tree, with a margin of 30%: fewer
// means that the check no longer sees the code it decides.
var floors = map[string]int{
	"P01": 46533,
	"P02": 695,
	"P03": 88,
	"P04": 71,
	"P05": 122,
	"P06": 19,
	"P07": 17,
	"P08": 255,
	"P09": 15,
	"P10": 46,
	"P11": 85,
	"P12": 56,
	"P13": 47,
	"P14": 35,
	"P15": 296,
	"P16": 9,
	"P17": 64,
	"P18": 182,
	"P19": 378,
	"P20": 226,
	"P21": 25,
	"P22": 38,
	"P23": 20,
	"P24": 102,
	"P25": 82,
	"P26": 35,
	"P27": 100,
	"P28": 29,
	"P29": 204,
	"P30": 774,
	"P31": 285,
	"P32": 2,
	"P33": 2,
	"P34": 4,
	"P35": 4,
	"P36": 30,
	"P37": 12,
	"P38": 9,
	"P39": 160,
}

// explain says what each check decides and how.
var explain = map[string]string{
	"P01": "Every exported reader is interpreted abstractly on a byte slice of unknown length and content; every message it can give is then printed, checked for coherency, asked for derived values and (Mode S) verified; every exported computation is run on arbitrary numbers, and the command line on arbitrary lines and options. Each operation that can panic (index, slice bound, nil dereference, type assertion, division, map write, shift, conversion, explicit panic) is one obligation per calling context: the condition under which it fails must be unsatisfiable.",
	"P02": "Every exported reader is interpreted abstractly on a byte slice of unknown length and content; at its return the nil-ness of the message and of the error are related: an error comes with no message, no error with a message, and each element of a returned list is a message.",
	"P03": "Every entry point (readers, and the printing, coherency, derived-value and parity methods of what they give, computations) is interpreted with its inputs marked as belonging to the caller: any write to them, to a package variable, any output, any call that leaves the module, any goroutine, channel or clock is reported with its site; returned bodies must not share storage with the input.",
	"P04": "ReadMessage is interpreted on 7 bytes, on 14 bytes and on any other length. For every known message type the condition (over the input bits) under which the reader gives it is compared, as a Boolean function, with the condition of the reviewed table; the rest must be an error, and no path may panic. Number and name accessors are compared per type.",
	"P05": "The two lengths of Mode S frames are interpreted with every bit unknown; each field of each message is compared bit by bit with the bits of the reviewed layout.",
	"P06": "The altitude and its method in each of the four formats are compared, over all 13 code bits at once, with the reviewed case split (zero, M, Q, Gillham) and the reviewed Gillham definition.",
	"P07": "The identity digits and the four predicates are compared over all 13 code bits with the interleaving of the standard.",
	"P08": "The verification of every accepted message is interpreted with all message bits unknown: every result bit and the acceptance condition is an exclusive-or of input bits that must equal the one the generator polynomial prescribes (computed in the checker by polynomial division).",
	"P09": "The verification is interpreted with allow-lists whose membership is an uninterpreted predicate per key: acceptance must be exactly 'empty or nil, or the key is present', for the list that applies to the format.",
	"P10": "The single-format reader and the squitter or Mode S reader that reaches it are interpreted on every content of the right length (all bits unknown at once) and on every other length: the condition of acceptance, and each field of the result as a function of the input bits, are compared with the reviewed layout table; a field that is missing from the result, a rejected valid content, an accepted invalid one and a reachable panic are violations.",
	"P11": "The single-format reader and the squitter or Mode S reader that reaches it are interpreted on every content of the right length (all bits unknown at once) and on every other length: the condition of acceptance, and each field of the result as a function of the input bits, are compared with the reviewed layout table; a field that is missing from the result, a rejected valid content, an accepted invalid one and a reachable panic are violations.",
	"P12": "The single-format reader and the squitter or Mode S reader that reaches it are interpreted on every content of the right length (all bits unknown at once) and on every other length: the condition of acceptance, and each field of the result as a function of the input bits, are compared with the reviewed layout table; a field that is missing from the result, a rejected valid content, an accepted invalid one and a reachable panic are violations.",
	"P13": "The single-format reader and the squitter or Mode S reader that reaches it are interpreted on every content of the right length (all bits unknown at once) and on every other length: the condition of acceptance, and each field of the result as a function of the input bits, are compared with the reviewed layout table; a field that is missing from the result, a rejected valid content, an accepted invalid one and a reachable panic are violations.",
	"P14": "The single-format reader and the squitter or Mode S reader that reaches it are interpreted on every content of the right length (all bits unknown at once) and on every other length: the condition of acceptance, and each field of the result as a function of the input bits, are compared with the reviewed layout table; a field that is missing from the result, a rejected valid content, an accepted invalid one and a reachable panic are violations.",
	"P15": "The single-format reader and the squitter or Mode S reader that reaches it are interpreted on every content of the right length (all bits unknown at once) and on every other length: the condition of acceptance, and each field of the result as a function of the input bits, are compared with the reviewed layout table; a field that is missing from the result, a rejected valid content, an accepted invalid one and a reachable panic are violations.",
	"P16": "GetSpeed and GetTrack of every velocity message the readers give are reduced to real-number expressions of the input bits and compared in normal form with the reviewed reference; the report lines that show them are compared likewise.",
	"P17": "The single-format reader and the squitter or Mode S reader that reaches it are interpreted on every content of the right length (all bits unknown at once) and on every other length: the condition of acceptance, and each field of the result as a function of the input bits, are compared with the reviewed layout table; a field that is missing from the result, a rejected valid content, an accepted invalid one and a reachable panic are violations.",
	"P18": "The single-format reader and the squitter or Mode S reader that reaches it are interpreted on every content of the right length (all bits unknown at once) and on every other length: the condition of acceptance, and each field of the result as a function of the input bits, are compared with the reviewed layout table; a field that is missing from the result, a rejected valid content, an accepted invalid one and a reachable panic are violations.",
	"P19": "The single-format reader and the squitter or Mode S reader that reaches it are interpreted on every content of the right length (all bits unknown at once) and on every other length: the condition of acceptance, and each field of the result as a function of the input bits, are compared with the reviewed layout table; a field that is missing from the result, a rejected valid content, an accepted invalid one and a reachable panic are violations.",
	"P20": "The single-format reader and the squitter or Mode S reader that reaches it are interpreted on every content of the right length (all bits unknown at once) and on every other length: the condition of acceptance, and each field of the result as a function of the input bits, are compared with the reviewed layout table; a field that is missing from the result, a rejected valid content, an accepted invalid one and a reachable panic are violations.",
	"P21": "The single-format reader and the squitter or Mode S reader that reaches it are interpreted on every content of the right length (all bits unknown at once) and on every other length: the condition of acceptance, and each field of the result as a function of the input bits, are compared with the reviewed layout table; a field that is missing from the result, a rejected valid content, an accepted invalid one and a reachable panic are violations.",
	"P22": "The single-format reader and the squitter or Mode S reader that reaches it are interpreted on every content of the right length (all bits unknown at once) and on every other length: the condition of acceptance, and each field of the result as a function of the input bits, are compared with the reviewed layout table; a field that is missing from the result, a rejected valid content, an accepted invalid one and a reachable panic are violations.",
	"P23": "The single-format reader and the squitter or Mode S reader that reaches it are interpreted on every content of the right length (all bits unknown at once) and on every other length: the condition of acceptance, and each field of the result as a function of the input bits, are compared with the reviewed layout table; a field that is missing from the result, a rejected valid content, an accepted invalid one and a reachable panic are violations.",
	"P24": "The single-format reader and the squitter or Mode S reader that reaches it are interpreted on every content of the right length (all bits unknown at once) and on every other length: the condition of acceptance, and each field of the result as a function of the input bits, are compared with the reviewed layout table; a field that is missing from the result, a rejected valid content, an accepted invalid one and a reachable panic are violations.",
	"P25": "The single-format reader and the squitter or Mode S reader that reaches it are interpreted on every content of the right length (all bits unknown at once) and on every other length: the condition of acceptance, and each field of the result as a function of the input bits, are compared with the reviewed layout table; a field that is missing from the result, a rejected valid content, an accepted invalid one and a reachable panic are violations.",
	"P26": "The single-format reader and the squitter or Mode S reader that reaches it are interpreted on every content of the right length (all bits unknown at once) and on every other length: the condition of acceptance, and each field of the result as a function of the input bits, are compared with the reviewed layout table; a field that is missing from the result, a rejected valid content, an accepted invalid one and a reachable panic are violations.",
	"P27": "For every message type a reader gives, the condition under which CheckCoherency returns nil is compared, as a Boolean function of the content, with the reviewed rule.",
	"P28": "ReadCommBMessage is interpreted on an unknown content: for every position of the returned list, the condition and type of the element are compared with acceptance and coherency of the single-format readers, which are interpreted on the same content.",
	"P29": "GetRegister, GetADSBVersion and GetADSBLevel of every message a reader gives, and the text of each register, are compared with the reviewed table.",
	"P30": "The text form of each coded type is interpreted on an unknown code of its full width; the condition of each resulting text is compared with the reviewed code table (every code is covered).",
	"P31": "ToString of every message on every input of every reader is interpreted to a symbolic text (literals and formatted values with conditions) and compared, segment by segment, with the reviewed template of its type.",
	"P32": "GetCPRAirborneGlobalPosition is reduced to guarded real-number expressions of its arguments and compared in normal form, case by case, with the reviewed reference (also only interpreted abstractly).",
	"P33": "GetCPRSurfaceGlobalPosition is reduced to guarded real-number expressions and compared with the reviewed reference: hemisphere, zone equality, the four longitude solutions and the choice of the nearest.",
	"P34": "The two local decodings are reduced to real-number expressions of encoded position, reference and parity and compared with the reviewed reference.",
	"P35": "The two distance functions are reduced to real-number expressions and compared with the haversine reference; every square root, arc cosine and arc sine argument is proved to stay in its domain by interval reasoning.",
	"P36": "main is interpreted with unknown arguments, options, file contents and standard input: the texts written, for each kind of line and message, are compared with the reviewed composition of messages and reports; exit conditions and panics are obligations.",
	"P37": "The readers of registers 0,0 and 0,7 are interpreted on all contents and compared with the reviewed layouts.",
	"P39": "Every exported reader, every method of what it gives, the parity verification, every exported computation and main are interpreted abstractly on unknown inputs. A loop is done when the condition under which it repeats has become unsatisfiable, a call when every path through it has returned or panicked: one obligation per loop, recursive function and entry. A loop whose end the domain cannot see (20000 repetitions), unlimited recursion, goroutines, channels and calls outside the modelled library are violations.",
	"P38": "Each bit helper is interpreted on unknown arguments and compared bit by bit with its definition (packing order, Gray code, Gillham altitude).",
}

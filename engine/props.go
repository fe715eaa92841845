package main

// Properties which symbolic execution of this kind doesn't decide, with the reason.
var notApplicable = [][2]string{}

func hs(pkg, fn string, quick, thorough int) HarnessSpec {
	return HarnessSpec{Pkg: pkg, Fn: "vpH_" + fn, Cases: [2]int{quick, thorough}}
}

const none = -1

// orders is a harness run under every schedule with at most dev (thorough devT)
// departures from round robin.
func orders(pkg, fn string, quick, thorough, dev, devT int) HarnessSpec {
	h := hs(pkg, fn, quick, thorough)
	h.Sched, h.Dev, h.DevT, h.ExitBad, h.Conc, h.Visits = true, dev, devT, true, true, 500
	return h
}

func exitBad(h HarnessSpec) HarnessSpec {
	h.ExitBad, h.Conc, h.Visits = true, true, 500
	return h
}

// many is a harness of longer loops.
func many(h HarnessSpec) HarnessSpec {
	h = exitBad(h)
	h.Visits = 20000
	return h
}

// live is a harness whose replays wait for real time.
func live(h HarnessSpec) HarnessSpec {
	h.ExitBad, h.Conc, h.Retry = true, true, 3
	return h
}

// The checks. Cases: [quick, thorough].
var props = []*Prop{
	{
		ID:     "T01",
		Hs:     []HarnessSpec{hs("tdt", "EPCDecode", 32, 32)},
		Bounds: []string{"tag of exactly 12 bytes (96 bits), every bit free; header one of SGTIN-96, SSCC-96, GRAI-96, GIAI-96; each partition value 0..7 is one case; protocol control bits free with the toggle bit 0"},
	},
	{
		ID:     "T02",
		Hs:     []HarnessSpec{hs("tdt", "TranslateTotal", 60, 72), hs("tdt", "TranslateLong", 20, 114)},
		Bounds: []string{"protocol control of 0..3 bytes, tag of 0..14 bytes (quick) or 0..17 bytes (thorough), all contents free; 12-byte tags with a known header belong to T01, ISO tags longer than 3 bytes of a known application family to T03", "tags of 15..34 (thorough 128) bytes, every bit free, none of a known application family"},
	},
	{
		ID:     "T03",
		Hs:     []HarnessSpec{hs("tdt", "ISOShort", 6, 6), hs("tdt", "ISOPadded", 8, 10), hs("tdt", "ISOLong", 82, 82)},
		Bounds: []string{"any content of 0..5 bytes with any application family identifier", "1..8 words (quick) or 1..10 words (thorough) of characters other than space followed by at most three padding spaces, for each of the ten application families; of one or two words also after another tag, or the tag with another family, was translated", "1..82 characters (31 words, the longest tags) of which the first, the last and any one between are free, of every application family"},
	},
	{
		ID:     "S01",
		Hs:     []HarnessSpec{hs("scheme", "EPCEncode", 28, 28), hs("scheme", "EPCMake", 28, 28)},
		Bounds: []string{"every scheme and partition; company prefix, reference and serial any numbers within their digits and bits; references and serials of one digit and of full length, serials of 1, 6, 11 and 12 digits"},
	},
	{
		ID:     "S02",
		Hs:     []HarnessSpec{hs("scheme", "EPCReject", 32, 32)},
		Bounds: []string{"every scheme and partition, one faulty field at a time: a filter value of one digit beyond 7, a company prefix of 1..5 or 13..16 digits, a reference of one digit more, a serial of 12..14 digits, any byte other than a digit at any one position"},
	},
	{
		ID:     "S03",
		Hs:     []HarnessSpec{hs("scheme", "EPCRandom", 28, 28)},
		Assume: []string{"the random number generator returns any number in its range"},
		Bounds: []string{"every scheme and partition; any subset of filter value, reference and serial left blank; every result of the random number generator; serials of six digits"},
	},
	{
		ID:     "S04",
		Hs:     []HarnessSpec{hs("scheme", "ISO17363", 8, 8), hs("scheme", "ISO17365", 16, 20), hs("scheme", "ISOMissing", 1, 1), hs("scheme", "ISORoundTrip", 8, 12), hs("scheme", "ISOLong", 30, 79), hs("scheme", "ISO17363Blank", 5, 8)},
		Bounds: []string{"containers: any owner code of three letters and equipment letter, serials of 0..7 digits; transport units: up to 15 (thorough 19) digits and capital letters in fields of several lengths", "transport units of 4..33 (thorough 82) characters, the first, the last and any one between free; containers with the owner code, the equipment letter and the serial number given or left out, the owner code and (quick) the serial number given being one"},
	},
	{
		ID:     "S05",
		Hs:     []HarnessSpec{hs("scheme", "CheckDigit", 1, 1), hs("scheme", "CheckDigitInput", 12, 14)},
		Bounds: []string{"every container number of four letters and six digits, in upper or lower case; digits and capital letters of every other length up to 10 (thorough 12)"},
	},
	{
		ID:     "P01",
		Hs:     []HarnessSpec{hs("tdt", "EPCPrefix", 28, 28), hs("tdt", "EPCPrefixReject", 36, 36), hs("tdt", "PrefixUnknownType", 10, 14)},
		Bounds: []string{"every scheme, partition, and number of given fields; field values any numbers within their digits and bits; references of one digit and of full length, serials of 1 and 12 digits; 96-bit tags with every bit free", "faults as for S02 and empty or superfluous fields; type names of 0..9 (thorough 13) bytes"},
	},
	{
		ID:     "P02",
		Hs:     []HarnessSpec{hs("tdt", "ISO17365Prefix", 4, 4), hs("tdt", "ISO17363Prefix", 11, 11), hs("tdt", "ISOPrefixReject", 8, 8), hs("tdt", "ISOPrefixLong", 82, 82)},
		Bounds: []string{"ISO 17365: one to four fields of 1..9 characters, each any character with a six-bit form; tags of 16 bytes with every bit free", "ISO 17363: any owner code and equipment letter, serials of 0..7 digits", "any byte without six-bit form at any one position of any field; no fields and five", "ISO 17365 patterns of 1..82 characters in one, two or four fields, the first, the last and any one between free"},
	},
	{
		ID:     "P03",
		Hs:     []HarnessSpec{hs("scheme", "EPCPattern", 28, 28), hs("scheme", "EPCPatternBlank", 4, 4), hs("scheme", "ISOPattern", 8, 8)},
		Bounds: []string{"every scheme, partition and number of given fields; field values any numbers within their digits and bits; ISO 17363 and 17365 patterns of one to four fields of letters and digits"},
	},
	{
		ID:     "G03",
		Hs:     []HarnessSpec{hs("scheme", "Sixenc", 8, 16), hs("scheme", "SixencLong", 6, 6)},
		Bounds: []string{"texts of 0..7 (thorough 15) characters, each any character with a six-bit form", "texts of 16, 21, 32, 41, 64 and 82 characters, all free"},
	},
	{
		ID:     "G04",
		Hs:     []HarnessSpec{hs("scheme", "Padding", 529, 529), hs("scheme", "ISOPC", 32, 32), hs("scheme", "PrintGoBytes", 4, 7), hs("scheme", "PrintGoBytesLong", 6, 6), hs("scheme", "Sixteen", 19, 19)},
		Bounds: []string{"bit strings of 0..528 bits; 0..31 words and every application family of ISO; printed tags of 0..3 (thorough 6) bytes, the first any byte, the others 0 or 255; of 4..62 bytes, one of them any; six-bit texts of 8..80 characters padded, three characters free"},
	},
	{
		ID:     "F01",
		Hs:     []HarnessSpec{hs("filtering", "FilterMatch", 18, 18), hs("filtering", "FilterLong", 38, 38)},
		Bounds: []string{"filters of 0..17 bits, each 0, 1 or don't care, at bit offsets 0..8 (thorough 0..16); tags of every length up to one byte beyond the filter, every bit free", "filters of 18..499 bits at offsets 0..114, the first, the last and one bit between free; tags of up to three bytes more or one less than the filter, every bit free"},
	},
	{
		ID:     "F02",
		Hs:     []HarnessSpec{hs("filtering", "FilterBytes", 18, 26), hs("filtering", "FilterLong", 38, 38)},
		Bounds: []string{"filters of 0..17 (thorough 25) bits, each 0, 1 or don't care, at bit offsets 0..16", "the long filters of F01"},
	},
	{
		ID:     "F03",
		Hs:     []HarnessSpec{hs("filtering", "Composition", 24, 24), hs("filtering", "CompositionMany", 20, 20)},
		Bounds: []string{"one to three filters of twelve shapes (offset and length) over the first three bytes, every bit free, with and without don't care bits; tags of five bytes, every bit free", "4..23 filters, one bit of each third free"},
	},
	{
		ID:     "E01",
		Hs:     []HarnessSpec{hs("filtering", "ListBuilt", 1, 1), hs("filtering", "ListMixed", 16, 16), hs("filtering", "ListShared", 16, 32), hs("filtering", "ListTree", 1, 1), hs("filtering", "ListMany", 4, 4), hs("filtering", "FieldsList", 8, 8)},
		Bounds: []string{enginePool, "15 to 40 patterns at once: nested texts of three characters, each the start of the next, serial numbers of an asset, companies of every length of prefix of every scheme, any tag of 12 (4) bytes", "a pattern of one to four fields of letters of ISO 17365, or of up to three of ISO 17363 or with any owner and serial number of the tag, any letters in the pattern, in upper or lower case, and in the tag"},
	},
	{
		ID:     "E02",
		Hs:     []HarnessSpec{hs("filtering", "PatriciaBuilt", 1, 1), hs("filtering", "PatriciaMixed", 16, 16), hs("filtering", "PatriciaShared", 16, 32), hs("filtering", "PatriciaTree", 1, 1), hs("filtering", "PatriciaMany", 4, 4), hs("filtering", "FieldsTrie", 8, 8)},
		Bounds: []string{enginePool, "15 to 40 patterns at once: nested texts of three characters, each the start of the next, serial numbers of an asset, companies of every length of prefix of every scheme, any tag of 12 (4) bytes", "a pattern of one to four fields of letters of ISO 17365, or of up to three of ISO 17363 or with any owner and serial number of the tag, any letters in the pattern, in upper or lower case, and in the tag"},
	},
	{
		ID:     "E03",
		Hs:     []HarnessSpec{hs("filtering", "SplaySearches", 2, 3), hs("filtering", "SplayMixed", 16, 16), hs("filtering", "SplayShared", 16, 32), hs("filtering", "SplayTree", 1, 1), hs("filtering", "SplayNested", 16, 16), hs("filtering", "SplayMany", 4, 4), hs("filtering", "FieldsSplay", 8, 8)},
		Bounds: []string{"every subset of six nested and branching six-bit patterns, after 0..1 (thorough 0..2) earlier searches of any tags of three bytes; every subset of nine EPC and ISO patterns with 96-bit tags (thorough: after an earlier search); every subset of the eight filter values of a scheme; every subset of seven patterns nested three levels after a search (thorough two) of any tag; every bit of the tags free", "15 to 40 patterns at once: nested texts of three characters, each the start of the next, serial numbers of an asset, companies of every length of prefix of every scheme, any tag of 12 (4) bytes, after the search of a tag of one of two (thorough any) of them", "a pattern of one to four fields of letters of ISO 17365, or of up to three of ISO 17363 or with any owner and serial number of the tag, any letters in the pattern, in upper or lower case, and in the tag"},
	},
	{
		ID:     "E04",
		Hs:     []HarnessSpec{hs("filtering", "LegacyEPC", 28, 28), hs("filtering", "LegacyISO", 1, 1), hs("filtering", "LegacyMany", 4, 4), hs("filtering", "FieldsLegacy", 8, 8)},
		Bounds: []string{"every scheme and partition of the tag, its fields any numbers of their digits (individual asset references of 1 and 4 digits, serials of 1 and 3 digits); a pattern of the same, a longer or a shorter company prefix with any field values and number of fields, next to patterns of other types", "every subset of six (thorough eight) ISO 17365 patterns, tags of four characters other than space", "15 to 40 patterns at once: nested texts of three characters, each the start of the next, serial numbers of an asset, companies of every length of prefix of every scheme; tags of 256 serial numbers, 16 company prefixes or any four bytes other than padding", "a pattern of one to four fields of letters of ISO 17365, or of up to three of ISO 17363 or with any owner and serial number of the tag, any letters in the pattern, in upper or lower case, and in the tag"},
		Assume: []string{"patterns are written as in identities: references with all their digits, serials without leading zeros"},
	},
	{
		ID:     "E05",
		Hs:     []HarnessSpec{hs("filtering", "AnyTag", 80, 192), hs("filtering", "Identity", 4, 4), hs("filtering", "IdentityISO", 4, 4), hs("filtering", "AnyTagLong", 20, 20)},
		Bounds: []string{"each engine with twelve EPC and ISO patterns; tags of 0..4 (thorough 11) bytes, protocol control bits of 0..3 bytes, every bit free; 96-bit tags of one company with 24 free bits, first or after a search of the same ID as an ISO tag or of another tag of the company", "an ISO tag of four bytes read two (thorough three) times, each time with any of two known patterns' and two other application families", "tags of 13, 16, 24, 62 and 128 bytes, three of them and the protocol control bits free, not of a known application family"},
	},
	{
		ID:     "E09",
		Hs:     []HarnessSpec{hs("filtering", "LegacyHistory", 16, 64), hs("filtering", "LegacyManyStep", 8, 8)},
		Bounds: []string{"two subscribers of any subsets of two (thorough three) patterns; every two operations, each adding or deleting any nonempty subset of the patterns for either or somebody else; then any tag of two characters other than space; deletions also for both of them and a stranger in one call", "of the patterns of E04's largest sets two are deleted, one is deleted and added, or all but four are deleted (quick: starting at one of four places), then any tag of them"},
	},
	{
		ID:     "E12",
		Hs:     []HarnessSpec{hs("filtering", "SamePattern", 4, 4)},
		Bounds: []string{"each engine, two subscribers of any subsets of two nested patterns, any tag of four characters other than space"},
	},
	{
		ID:     "E13",
		Hs:     []HarnessSpec{hs("filtering", "Kinds", 8, 8)},
		Bounds: []string{"each engine with two EPC patterns and any ISO 17365 tag of four characters other than space, with two ISO patterns and an EPC tag of an eight bit serial"},
	},
	{
		ID:     "B01",
		Hs:     []HarnessSpec{hs("filtering", "Malformed", 96, 96)},
		Bounds: []string{"each engine; patterns with up to three free ASCII characters as a whole, as type, before the type or as filter value; one free ASCII character in the last six characters of patterns of wrong or superfluous fields; ISO patterns without fields and other URIs; a 96-bit tag of any filter value; before and after adding and deleting them"},
	},
	{
		ID:     "E06",
		Hs:     []HarnessSpec{hs("filtering", "ListHistory", 32, 64), hs("filtering", "ListLong", none, 8), hs("filtering", "ListNestedStep", 16, 16), hs("filtering", "ListTreeStep", 16, 16), hs("filtering", "ListBranchStep", 16, 16), hs("filtering", "ListManyStep", 8, 8)},
		Bounds: []string{historyBounds, "of the patterns of E01's largest sets two are deleted, one is deleted and added, or all but four are deleted (quick: starting at one of four places), then any tag of them"},
	},
	{
		ID:     "E07",
		Hs:     []HarnessSpec{hs("filtering", "PatriciaHistory", 16, 64), hs("filtering", "PatriciaLong", none, 8), hs("filtering", "PatriciaNestedStep", 16, 16), hs("filtering", "PatriciaTreeStep", 16, 16), hs("filtering", "PatriciaBranchStep", 16, 16), hs("filtering", "PatriciaManyStep", 8, 8)},
		Bounds: []string{historyBounds, "of the patterns of E02's largest sets two are deleted, one is deleted and added, or all but four are deleted (quick: starting at one of four places), then any tag of them"},
	},
	{
		ID:     "E08",
		Hs:     []HarnessSpec{hs("filtering", "SplayHistory", 16, 64), hs("filtering", "SplayLong", none, 8), hs("filtering", "SplayNestedStep", 16, 16), hs("filtering", "SplayTreeStep", 16, 16), hs("filtering", "SplayBranchStep", 16, 16), hs("filtering", "SplayManyStep", 8, 8)},
		Bounds: []string{historyBounds, "one search of any tag between the operations", "of the patterns of E03's largest sets two are deleted, one is deleted and added, or all but four are deleted (quick: starting at one of four places), then any tag of them"},
	},
	{
		ID:     "E10",
		Hs:     []HarnessSpec{hs("filtering", "EngineRestore", 96, 96), hs("filtering", "TreeRestore", 24, 24), hs("filtering", "LegacyRestore", 32, 32), hs("filtering", "RestoreOver", 48, 48), hs("filtering", "ManyRestore", 16, 16)},
		Bounds: []string{"List, PatriciaTrie and SplayTree (after a search of any tag): every subset of five nested and branching patterns, then one further addition or deletion or none, then any tag of three bytes; the same three, every subset of the eight filter values of a scheme, any tag of two bytes; the text engine: every subset of five EPC patterns, a tag with eight free bits; the three engines restored from every subset of four patterns into an engine in use with any subset of another four", "the four engines with the largest sets of E01 to E04 restored, then one of three (thorough any) pattern deleted"},
	},
	{
		ID:     "E11",
		Hs:     []HarnessSpec{hs("filtering", "EngineForeign", 16, 16), hs("filtering", "EngineCut", 32, 32)},
		Bounds: []string{"each of the four engines with what each of the others saved (two or three patterns) and with no data; what each saved of any subset of three patterns, broken off after or within any value, then the whole of it"},
	},
	{
		ID:     "B02",
		Hs:     []HarnessSpec{hs("filtering", "SubscriptionsRestore", 4, 6), hs("filtering", "PartialRestore", 4, 6), hs("filtering", "SubscriptionsMany", 4, 8)},
		Bounds: []string{"two subscribers with texts of any bytes (2 and 3 bytes), 0..3 (thorough 5) patterns of 0..12 bytes each; filters with any offset up to 100, an address of 0..3 (thorough 5) bytes, subsets nested two levels", "8..32 (thorough 64) subscribers of up to ten patterns of up to 340 bytes, one byte of each free"},
	},
	{
		ID:     "C01",
		Hs:     []HarnessSpec{exitBad(hs("filtering", "GeneratorCounts", 1, 1)), orders("filtering", "GeneratorCountsOrders", 1, 1, 3, 2), orders("filtering", "GeneratorLong", 1, 1, 1, 1), many(hs("filtering", "GeneratorMany", 2, 4))},
		Assume: []string{concurrency},
		Bounds: []string{"every sequence of four (thorough six) steps, each a search with or without a match, the end of an interval or the factory taking a message; then everything taken and one further interval; every schedule with at most three departures from round robin (thorough: two with the longer sequences); three (thorough four) steps with searches of any duration up to two and a half intervals, at most one departure", "intervals of 300, 1 and 70 searches (thorough up to 1200), two of each matching or not"},
	},
	{
		ID:     "C02",
		Hs:     []HarnessSpec{exitBad(hs("filtering", "GeneratorThroughput", 1, 1)), many(hs("filtering", "GeneratorMany", 2, 4))},
		Assume: []string{concurrency, "time passes only in sleeping and in the searches, which take any time told"},
		Bounds: []string{"every sequence of four (thorough five) steps as for C01, each search taking any number of nanoseconds up to 2000", "intervals of 300, 1 and 70 searches, two of each of any duration"},
	},
	{
		ID:     "C03",
		Hs:     []HarnessSpec{exitBad(hs("filtering", "FactoryGeneration", 6, 6)), orders("filtering", "FactoryTwoOrders", 4, 4, 2, 2), orders("filtering", "FactoryFourOrders", 2, 2, 1, 1), exitBad(hs("filtering", "FactorySearch", 4, 4))},
		Assume: []string{concurrency},
		Bounds: []string{"four sets of two engines and the four engines listed in two orders, two engines generated after any number of nanoseconds up to one and a half intervals, four at the start, when the interval ends or a quarter of an interval later; a search at the start, after three quarters of an interval and after one and a half; every schedule with at most two departures from round robin for two engines (quick: generated at times as for four), one for four", "the four engines of the repository, each of them once the fastest, with every subset of three (thorough four) nested and branching ISO 17365 patterns; tags of three characters other than space, before and after the fastest comes into use"},
	},
	{
		ID:     "C04",
		Hs:     []HarnessSpec{exitBad(hs("filtering", "FactoryAdoption", 6, 6)), orders("filtering", "AdoptionTwoOrders", 4, 4, 1, 2), orders("filtering", "AdoptionFourOrders", none, 2, 1, 1), many(hs("filtering", "FactoryMany", 2, 2)), many(hs("filtering", "FactorySwitch", 6, 6))},
		Assume: []string{concurrency},
		Bounds: []string{"the engine sets of C03, each engine taking any number of nanoseconds up to 2000 for one or two searches with or without a match, two (thorough three) rounds of three intervals of one to three seconds; every schedule of one round with at most one (thorough two) departure from round robin for two engines, thorough also one for four", "eight rounds of up to 12 searches, the fastest of the four engines another one in most; in one round (quick: of three) two engines of any speed", "three (thorough four) searches which take each of two engines 0, 300, 600 or 900 ms (of four engines: one of them at a time), over intervals of a second, so that the engine in use changes in the middle of them"},
	},
	{
		ID:     "C05",
		Hs:     []HarnessSpec{exitBad(hs("filtering", "Races", 4, 4)), orders("filtering", "RacesOrders", 4, 4, 1, 1), live(hs("cmd/gosstrak-fc", "SessionRaces", 1, 1))},
		Assume: []string{concurrency, "the happens-before relation is that of the Go memory model: go statements, channels, locks, atomics, sync.Map, Once and WaitGroup; accesses are those of the repository's, go-llrp's and a few of the standard library's functions (bytes, sort, strings, bufio...)"},
		Bounds: []string{"the four engines of the repository, each of them once the fastest, generated at the start or 700 ms later; five (thorough six) searches, pauses of 0, 350, 700 or 1050 ms between them, intervals of a second; also every schedule with at most one departure from round robin", "a session with statistics and two patterns: two (thorough three) times two reports and a keepalive in one piece, the next at once or 1.2 s later; every tag matching or not"},
	},
	{
		ID:     "M01",
		Hs:     []HarnessSpec{live(hs("monitoring", "StatManager", 3, 4)), live(hs("monitoring", "StatMany", 3, 3)), live(hs("monitoring", "StatTimes", 3, 3))},
		Assume: []string{concurrency, "the client of the database writes the points of a batch as they were made (the replays use the real client and a server)"},
		Bounds: []string{"one to three (thorough four) messages of any kind, of the four engines, counts up to 2^20 and throughputs of eighths up to 2^17, traffic messages whose values aren't counts", "40 messages of every kind in turn, some counts free", "twelve messages of one kind of any engine as fast as they are taken (a write takes 20 µs)"},
	},
	{
		ID:     "W01",
		Hs:     []HarnessSpec{live(hs("cmd/gosstrak-fc", "Session", 2, 3)), live(hs("cmd/gosstrak-fc", "SessionLarge", 8, 8)), live(orders("cmd/gosstrak-fc", "SessionOrders", 1, 1, 1, 2)), live(hs("cmd/gosstrak-fc", "SessionMany", 6, 6))},
		Assume: []string{concurrency, "connections deliver bytes in order (the replays use the loopback network)"},
		Bounds: []string{"one or two (thorough three) messages of the four kinds, with any message IDs and initial message ID, notifications of up to two bytes, responses of up to four, reports of up to two tags of 96 bits or of one or two words with any bits; sent as a whole or in two pieces cut anywhere (three messages: at the quarters); one message under every schedule with at most one (thorough two) departure from round robin", "a response or a report of 65535, 65536, 65545 or 131084 bytes, of zeros or of tags of 31 words with a free byte each, then a report of one tag and a keepalive", "24 messages of every kind with reports of up to 16 tags of 16 to 496 bits, a byte of some tags and of each message ID free, sent in pieces of 1, 7, 64, 1000, 4096 bytes or as a whole"},
	},
	{
		ID:     "W02",
		Hs:     []HarnessSpec{live(hs("cmd/gosstrak-fc", "SessionStats", 2, 2)), live(orders("cmd/gosstrak-fc", "StatsOrders", 1, 1, 1, 1)), live(hs("cmd/gosstrak-fc", "SessionMatches", 2, 2)), live(hs("cmd/gosstrak-fc", "StatsMany", 2, 4))},
		Assume: []string{concurrency, "connections deliver bytes in order and the client of the database writes the points of a batch as they were made (the replays use the loopback network, the real client and a server)"},
		Bounds: []string{"one or two reports of up to two tags of 96 bits or of one or two words, each matching or not, an interval between or not; one report under every schedule with at most one departure from round robin", "the four engines with every subset of two (thorough four) ISO 17365 patterns in the file, a report of one or two tags of two bytes, every bit free but for characters which pad", "eight reports of up to 39 tags in three intervals, a few of them matching or not"},
	},
	{
		ID:     "B03",
		Hs:     []HarnessSpec{hs("filtering", "LoadCSV", 2, 2), hs("filtering", "LoadCSVMany", 7, 7)},
		Bounds: []string{"files of one or two rows, each with an address in upper or lower case, one with a free character, or something else, and up to two fields: patterns with one or two free printable characters, in upper or lower case, quoted or not, or something else with a free character; either end of line, also none at the end of the file", "a file of 24 rows of up to eight fields of up to 5000 bytes, the patterns of two rows with a free character each"},
	},
	{
		ID:     "G01",
		Hs:     []HarnessSpec{hs("cmd/gobtags", "ByteID", 33, 65), hs("cmd/gobtags", "PC", 7, 9), hs("cmd/gobtags", "ByteIDLong", 8, 8)},
		Bounds: []string{"texts of 0..32 (thorough 64) zeros and ones; texts of 0..6 (thorough 8) ASCII characters", "texts of 96, 127, 128, 248, 256, 495, 496 and 512 zeros and ones, all free"},
	},
	{
		ID:     "G02",
		Hs:     []HarnessSpec{hs("scheme/sixenc2bin", "SixencBin", 8, 16), hs("scheme/sixenc2bin", "SixencBinLong", 6, 6)},
		Bounds: []string{"texts of 0..7 (thorough 15) characters, each any character with a six-bit form", "texts of 16, 21, 32, 41, 64 and 82 characters, all free"},
	},
}

const concurrency = "goroutines switch at channel operations, locks, sleeps and when they end, not between other instructions; what the test does next happens when all goroutines wait"

const enginePool = "every subset of six (thorough eight) nested and branching six-bit patterns with tags of three bytes; every subset of nine EPC and ISO patterns with tags of 96 bits; every subset of the eight filter values of a scheme (every tree of three levels) with tags of two bytes; every bit of the tags free"

const historyBounds = "from every subset of four (thorough five) nested and branching patterns, every two operations (thorough also three from three patterns), each the addition or deletion of one or two patterns, of a present one or not, or the deletion of somebody else's (thorough, and the list always: of a subscriber each, and of two subscribers together); from every subset of six (thorough seven) patterns nested three levels, of six (thorough seven; splay five) nested in branches of ones and of zeros and of six (thorough eight) filter values of a scheme (splay: five), of two subscribers, every one such operation; then any tag of three (two) bytes"

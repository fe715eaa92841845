#!/usr/bin/env python3
# Writes /verif/properties.jsonl.
import json, os
P = []

def prop(id, title, statement, over, quant, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe or [], "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    P.append(d)

TDT = ["tdt/core.go", "tdt/epc.go"]
prop("T01", "Every 96-bit EPC tag translates to exactly its pure identity or is refused",
     "A 96-bit tag of the SGTIN, SSCC, GRAI or GIAI scheme translates to the pure identity URI of its company prefix (zero-padded to the length its partition value names), its reference (zero-padded to its digits) and its serial. A tag with the reserved partition value 7, or with a field whose value exceeds the decimal digits the partition gives it, is refused with an error. Translation never panics.",
     ["inputs"], "all 2^96 contents of a tag with each of the four headers",
     "The tests translate a handful of tags, all of them valid; field values beyond the decimal capacity and reserved partitions panicked.",
     TDT, [("Translate chooses the scheme by the header", "tdt/core.go:Translate"), ("per-scheme translation", "tdt/epc.go")], ["return values of Translate"])
prop("T02", "Malformed tags and protocol control bits are refused, never crash",
     "Translating anything that is not a tag the translator knows, i.e. protocol control bits of any length other than two bytes, an EPC of any other length than 96 bits or with an unknown header, or an unknown application family, returns an error and no identity. It never panics.",
     ["inputs"], "all byte strings as protocol control bits and as the tag",
     "Tags come from the air: the tests only offer well-formed ones.",
     TDT, [("length and header checks", "tdt/core.go:Translate")], ["return values of Translate"])
prop("T03", "Every ISO tag translates to its six-bit characters",
     "A tag with an ISO application family translates to the URI of the standard of that family followed by the tag's six-bit characters in order, without the padding. Tags of an application family outside ISO's are refused.",
     ["inputs"], "all application families and all contents of the tag",
     "The tests decode a few constants; padding appears at every alignment and length.",
     ["tdt/core.go", "tdt/iso.go", "tdt/afi.go"], [("six-bit decoding and removal of padding", "tdt/iso.go"), ("application families", "tdt/afi.go")], ["return values of Translate"])
prop("S01", "A generated EPC tag holds exactly the given fields",
     "For every scheme, company prefix, reference, serial and filter value that can be encoded, the generated tag is 96 bits with the scheme's header, the filter value, the partition of the company prefix's length and the fields in their bits. No encodable combination is rejected, and the protocol control bits are those of a 96-bit EPC.",
     ["inputs"], "all company prefixes of 6..12 digits, all references and serials that fit",
     "The tests generate single examples per scheme; field widths change with each partition.",
     ["scheme/epc.go", "scheme/generate.go"], [("Make*96", "scheme/epc.go"), ("partition tables", "scheme/epc.go"), ("MakeEPC", "scheme/generate.go")], ["return values of MakeEPC and the Make functions"])
prop("S02", "Fields an EPC cannot hold are refused, not wrapped or truncated",
     "A filter value over 7, a company prefix of no valid length, a reference or serial beyond its digits or bits, or anything which is not a number is refused with an error and without a tag or a pattern.",
     ["inputs"], "all single faults in any field of any scheme and partition",
     "The tests hardly give invalid fields; a silently wrapped field is another company's identity.",
     ["scheme/epc.go"], [("validation in GetCompanyPrefix, GetItemReference, ... and the Make functions", "scheme/epc.go")], ["errors returned by the Make functions"])
prop("S03", "Fields generated at random are valid for their scheme and partition",
     "Where the filter value, the reference or the serial is left out, a tag is generated whose missing fields have values within the digits and bits of the partition, while the given fields are kept. A tag is never generated without a company prefix.",
     ["inputs"], "all results of the random number generator, all company prefixes",
     "A test sees a few random numbers; an out-of-range one is rare.",
     ["scheme/epc.go"], [("random fields", "scheme/epc.go")], ["return values of the Make functions"])
prop("S04", "A generated ISO tag holds its characters, a check digit and whole words",
     "A generated container or transport unit tag consists of the six-bit characters of its fields (a container's serial padded to six digits and followed by its check digit) and padding to whole 16-bit words. Its protocol control bits give its length and application family, and translating it gives back the identity it was made from. A missing mandatory field or a serial too long is refused.",
     ["inputs"], "all owner codes, equipment letters, serials and field texts",
     "Tests cover an example per standard; padding depends on the length modulo 16 bits.",
     ["scheme/iso.go", "scheme/generate.go", "tdt/iso.go"], [("MakeISO17363, MakeISO17365", "scheme/iso.go"), ("padding", "scheme/iso.go:Pad6BitEncodingRuneSlice")], ["return values of MakeISO"])
prop("S05", "The check digit of a container is the ISO 6346 check digit",
     "The check digit computed for every owner code, equipment letter and six-digit serial is the ISO 6346 one, for letters of either case. Anything of another length is refused.",
     ["inputs"], "all 26^4 * 10^6 container numbers",
     "Tests check a few containers out of 4.5e11.",
     ["scheme/iso.go", "tdt/iso.go"], [("GetISO6346CD", "scheme/iso.go")], ["return value of GetISO6346CD"])
prop("P01", "An EPC pattern filters exactly the tags with the pattern's fields",
     "The filter of an EPC pattern is a bit prefix which a tag has if and only if the tag has the pattern's scheme and each of the field values given, so references and serials in patterns select by value. A pattern with fields no tag can have, or of an unknown type, is refused without a filter.",
     ["inputs"], "all field values of all schemes and partitions against all 96-bit tags",
     "Tests compare filters of a few patterns with literals; matching is never compared with the meaning of the pattern.",
     ["tdt/core.go", "tdt/epc.go"], [("MakePrefixFilterString and NewPrefixFilter*", "tdt/core.go, tdt/epc.go")], ["filter and error of MakePrefixFilterString"])
prop("P02", "An ISO pattern filters exactly the tags that start with its characters",
     "The filter of an ISO pattern consists of the six-bit characters of its fields, so that a tag has it as prefix if and only if the tag's characters start with them. A full container pattern includes the padded serial and its check digit, and a serial too long is refused.",
     ["inputs"], "all field texts of six-bit characters against all tags",
     "Tests compare a few literals; a wrong check digit only shows with containers where the sums differ.",
     ["tdt/iso.go", "tdt/core.go"], [("NewPrefixFilterISO17363, NewPrefixFilterISO17365", "tdt/iso.go")], ["filter and error of MakePrefixFilterString"])
prop("P03", "Patterns printed by the generator are the ones the filters are made from",
     "The pattern URI printed by the tag generator has exactly the given fields, and the filter printed with it is the filter which subscribing to that pattern makes. This includes fields the generator chose at random.",
     ["inputs"], "all given fields, their number, scheme and partition",
     "Generator and filtering side encode fields in separate code; tests look at each alone.",
     ["scheme/epc.go", "scheme/iso.go", "scheme/generate.go", "tdt/epc.go", "tdt/iso.go"], [("pattern branch of the Make functions", "scheme/epc.go, scheme/iso.go"), ("MakePrefixFilterString", "tdt/core.go")], ["return values of MakeEPC and MakeISO, MakePrefixFilterString"])
prop("G03", "Six-bit encoding of text is six bits a character, in order",
     "Encoding a text into six-bit characters gives the low six bits of each character, most significant bit first, six times as many bits as characters.",
     ["inputs"], "all texts of characters that have a six-bit form",
     "A test encodes one text.",
     ["scheme/generate.go", "scheme/sixenc2bin/main.go"], [("Sixenc2bin", "scheme/generate.go")], ["return value of Sixenc2bin"])
prop("G04", "Padding, protocol control bits and printed literals of generated tags fit",
     "Padding fills a bit string up to the next whole word with the padding character and leaves the content alone. The protocol control bits of an ISO tag hold its number of words, the ISO indicators and its application family. What is printed for a tag (literals, lines) holds exactly its bytes.",
     ["inputs"], "all bit strings, word counts, application families and tag contents",
     "Tests pad and print a few constants.",
     ["scheme/iso.go", "scheme/generate.go"], [("Pad6BitEncodingRuneSlice, MakeISOPC", "scheme/iso.go"), ("PrintID, PrintGoBytes", "scheme/generate.go")], ["return values"])
prop("F01", "A filter matches an ID if and only if the ID has its bits at its offset",
     "A filter of 0, 1 and don't-care bits at a bit offset matches an ID exactly if every 0 and 1 is the bit of the ID at that position; an ID which ends before a bit the filter needs doesn't match. Matching never crashes, whatever the length of the ID.",
     ["inputs"], "all filters, offsets and IDs of any length",
     "Tests match some pairs; offsets which aren't multiples of eight and IDs that end within the filter make the difference.",
     ["filtering/filter_object.go"], [("NewFilter builds filter and mask bytes", "filtering/filter_object.go:NewFilter"), ("Match", "filtering/filter_object.go:Match")], ["return value of Match"])
prop("F02", "The bytes and masks of a filter are those of its bits",
     "A filter gives for every byte it covers the bits it requires and a mask of the bits it doesn't care about, and refuses every other byte position. A filter is transparent exactly if it requires no bit.",
     ["inputs"], "all filters and offsets, all byte positions",
     "Tests look at a few bytes.",
     ["filtering/filter_object.go"], [("NewFilter, GetByteAt, HasByteAt, IsTransparent", "filtering/filter_object.go")], ["return values"])
prop("F03", "A composition of filters and its remainders pass what the filters pass",
     "The common filter taken out of several filters together with what remains of each filter passes exactly the IDs that filter passes. No filter is lost in it.",
     ["inputs"], "all sets of filters with a byte in common, all IDs",
     "Tests compose two or three literal filters.",
     ["filtering/composition.go", "filtering/filter_object.go"], [("NewComposition", "filtering/composition.go")], ["common filter and children against Match"])
ENG = "Tests search for tags of a few fixed subscriptions and mostly for one match; which node answers depends on the set of patterns and on the tag."
for id, name, f, extra in (("E01", "list", "filtering/list.go", ""), ("E02", "trie", "filtering/patricia_trie.go", ""), ("E03", "splay tree", "filtering/splay_tree.go", " The searches before make no difference.")):
    prop(id, "The %s engine reports a tag to exactly the subscribers it matches" % name,
         "For every set of subscribed patterns, searching for a tag in the %s engine gives the subscribers whose pattern the tag belongs to: none is left out, none is added, none is given more often than it has matching patterns, and there is no address nobody subscribed. A tag of no pattern is refused with an error.%s" % (name, extra),
         ["inputs", "configurations"] + (["histories"] if id == "E03" else []), "all sets of nested, branching and disjoint patterns, all tags" + (", all searches before" if id == "E03" else ""), ENG,
         [f, "filtering/subscriptions.go", "filtering/engine.go"], [("building the engine", f), ("Search", f), ("nesting of patterns that share a prefix", "filtering/subscriptions.go:linkSubset")], ["reportURIs and error of Search"])
prop("E04", "The text engine reports a tag to exactly the subscribers of its pure identity",
     "Searching for a tag in the text engine gives the subscribers whose pattern names the tag's scheme and the leading fields of its pure identity (which has no filter value), field by field, and nobody else. A tag of no pattern or without a pure identity is refused with an error and nobody gets it.",
     ["inputs", "configurations"], "all sets of patterns over EPC and ISO identities, all tags",
     "Tests search for a few tags with their own patterns; a pattern whose last field is the beginning of a longer field of the tag isn't among them.",
     ["filtering/legacy_engine.go", "tdt/core.go"], [("prefix comparison of identities", "filtering/legacy_engine.go:Search")], ["reportURIs and error of Search"])
prop("E05", "No tag crashes an engine, and what it reports is the tag's own identity",
     "Searching for a tag of any length and content, with any protocol control bits, never panics in any engine and doesn't change the tag. A tag shorter than a pattern doesn't belong to it, and a match comes with the pure identity of the tag itself.",
     ["inputs"], "all tags of any length, all protocol control bits",
     "Tags come from the air; the tests only search for whole ones.",
     ["filtering/list.go", "filtering/patricia_trie.go", "filtering/splay_tree.go", "filtering/legacy_engine.go", "filtering/filter_object.go", "filtering/engine.go"],
     [("Match of short IDs", "filtering/filter_object.go:Match"), ("getNextBit", "filtering/engine.go")], ["Search of every engine"])
HIST = "Tests add or delete one subscription of a fixed set; which nodes have to be split, joined or kept depends on the history."
for id, name, f in (("E06", "list", "filtering/list.go"), ("E07", "trie", "filtering/patricia_trie.go"), ("E08", "splay tree", "filtering/splay_tree.go")):
    prop(id, "Additions and deletions leave the %s engine as if built from scratch" % name,
         "After any sequence of additions and deletions of subscriptions%s the %s engine reports every tag to exactly the subscribers remaining. Deleting a subscription removes that one only: the others keep theirs, and deleting what isn't there changes nothing." % (" and searches in between" if id == "E08" else "", name),
         ["histories", "inputs"], "all histories of additions and deletions from all sets of patterns, all tags", HIST,
         [f, "filtering/subscriptions.go"], [("AddSubscription, DeleteSubscription", f)], ["reportURIs of Search after the history"])
prop("E09", "Additions and deletions leave the text engine as if built from scratch",
     "After any sequence of additions and deletions of subscriptions the text engine reports every tag to exactly the subscribers remaining, and neither building nor changing an engine changes the subscriptions the caller gave it.",
     ["histories", "inputs"], "all histories of additions and deletions of patterns and subscribers", HIST,
     ["filtering/legacy_engine.go"], [("AddSubscription, DeleteSubscription", "filtering/legacy_engine.go")], ["reportURIs of Search after the history"])
prop("E10", "A saved and restored engine answers as the one that was saved",
     "Every engine can be saved and restored, whatever is subscribed and whatever was searched for: the restored engine has the same name and content, reports every tag to the same subscribers and takes further additions and deletions like the original; an engine in use keeps nothing of its own when it is restored from what another one of its kind saved.",
     ["histories", "inputs", "configurations"], "all sets of patterns, all later changes, all tags",
     "Tests encode and decode one engine each, and compare with an engine of one shape.",
     ["filtering/list.go", "filtering/patricia_trie.go", "filtering/splay_tree.go", "filtering/legacy_engine.go"], [("MarshalBinary, UnmarshalBinary", "filtering/*.go")], ["Search, Dump, AddSubscription, DeleteSubscription of the restored engine"])
prop("E11", "An engine refuses to be restored from something else",
     "Restoring an engine from what another kind of engine saved, from no data, or from saved data that was cut short, is an error. The engine can be restored from the whole data afterwards.",
     ["inputs", "configurations"], "all pairs of engines, sets of patterns and lengths of the data",
     "Tests restore engines only from their own data.",
     ["filtering/list.go", "filtering/patricia_trie.go", "filtering/splay_tree.go", "filtering/legacy_engine.go"], [("UnmarshalBinary checks the name of the engine", "filtering/*.go")], ["error of UnmarshalBinary"])
prop("E12", "Every subscriber of a pattern gets its tags, also if there are several",
     "If several subscribers have the same pattern, each of them gets the tags that belong to it, in every engine.",
     ["configurations", "inputs"], "all assignments of patterns to subscribers, all tags",
     "No test subscribes two addresses to one pattern.",
     ["filtering/subscriptions.go", "filtering/list.go", "filtering/patricia_trie.go", "filtering/splay_tree.go", "filtering/legacy_engine.go"], [("one address per filter", "filtering/subscriptions.go:ToByteSubscriptions")], ["reportURIs of Search"])
prop("E13", "EPC patterns get EPC tags only, ISO patterns only tags of their standard",
     "A tag whose protocol control bits say it's an ISO tag is not reported to subscribers of EPC patterns, and an EPC tag is not reported to subscribers of ISO patterns, whatever its bits.",
     ["inputs"], "all tags and their protocol control bits",
     "Tests use tags with the protocol control bits that fit.",
     ["filtering/list.go", "filtering/patricia_trie.go", "filtering/splay_tree.go", "filtering/legacy_engine.go"], [("matching of the tag's bits", "filtering/*.go:Search")], ["reportURIs of Search"])
prop("B01", "A malformed pattern subscribes to nothing and disturbs no other",
     "Subscribing to a pattern which isn't one (of an unknown type, with missing, superfluous or impossible fields, or another URI) has no effect in any engine: its subscriber gets no tag by it, every other pattern works as without it, and deleting it is harmless too.",
     ["inputs", "configurations"], "all texts as patterns",
     "Subscriptions come from files of users; tests subscribe to well-formed patterns.",
     ["filtering/subscriptions.go", "filtering/legacy_engine.go", "tdt/core.go", "tdt/epc.go", "tdt/iso.go"], [("ToByteSubscriptions skips what has no filter", "filtering/subscriptions.go")], ["reportURIs of Search"])
prop("B02", "Subscriptions survive saving and copying; a copy is independent",
     "A set of subscriptions, and a filter with its address and nested subsets, that was saved and restored is equal to the original. A copy is equal to the original and changing it doesn't change the original, and the keys are all the subscribers in order.",
     ["inputs", "configurations"], "all sets of subscribers, addresses and patterns of any bytes",
     "Tests save one set.",
     ["filtering/subscriptions.go"], [("MarshalBinary, UnmarshalBinary, Clone, Keys", "filtering/subscriptions.go")], ["return values"])
prop("C01", "The reports of an engine count every search and every match exactly once",
     "An engine generator reports, once in every interval, how many searches it did since its last report and how many of them had subscribers. Whatever the order in which searches, ends of intervals and the reading of reports happen, every search and every match is counted in exactly one report, in the same report for both, every search returns what the engine answers, and nobody waits for ever.",
     ["schedules", "histories", "inputs"], "all interleavings of searches, interval ends and the reading of messages; all durations of searches",
     "No test runs a generator with searches: the counters are shared by two goroutines, and a match could be dropped by a report between it and its search.",
     ["filtering/engine_generator.go", "filtering/engine.go"], [("measuring goroutine and Search", "filtering/engine_generator.go:NewEngineGenerator, Search"), ("timeTrack", "filtering/engine.go:timeTrack")], ["TrafficStatus messages on the management channel", "return values of EngineGenerator.Search"])
prop("C02", "Reported throughput is searches per microsecond since the last report",
     "The throughput an engine generator reports is the number of searches since its last report divided by the microseconds they took, for every duration of a search down to a nanosecond. It is a positive finite number, and is reported only if there were searches which took time.",
     ["inputs", "schedules"], "all durations of searches, all orders of searches and intervals",
     "Tests can't tell a search what time to take; searches of less than a microsecond made the throughput infinite.",
     ["filtering/engine_generator.go", "filtering/engine.go"], [("throughput at the end of an interval", "filtering/engine_generator.go:NewEngineGenerator"), ("elapsed time of a search", "filtering/engine.go:timeTrack")], ["EngineStatus messages on the management channel"])
prop("C03", "A factory answers with its best generated engine from the first one on",
     "A factory is active as soon as an engine is generated and not before. While throughputs aren't known, of the engines generated so far the one of the highest priority is in use (PatriciaTrie, SplayTree, List, LegacyEngine), whatever the order and times in which they are generated; every change is announced on the main channel. A search gives the answer of the engine in use, which is the subscribers of the tag whichever engine it is.",
     ["schedules", "inputs", "configurations"], "all orders and times of generation, all schedules, all subscriptions and tags",
     "No test runs a factory: engines are generated concurrently.",
     ["filtering/engine_factory.go", "filtering/engine_generator.go"], [("deployment by priority", "filtering/engine_factory.go:Run"), ("Search and IsActive", "filtering/engine_factory.go")], ["return values of EngineFactory.Search and IsActive", "SelectedEngine messages on the main channel"])
prop("C04", "A factory takes the engine of the best throughput and passes on every report",
     "At the end of an interval a factory takes the engine which reported the best throughput into use and announces the engine in use. Every engine that is generated searches for every tag, so that each is measured, and every report of every engine reaches the main channel exactly once, with nothing changed.",
     ["schedules", "inputs"], "all durations of the searches of each engine, all schedules, several sets of engines",
     "No test runs a factory; messages to main were taken back by the factory itself, depending on the schedule.",
     ["filtering/engine_factory.go", "filtering/engine_generator.go"], [("selective adoption and forwarding of reports", "filtering/engine_factory.go:Run"), ("every engine searches", "filtering/engine_factory.go:Search")], ["messages on the main channel", "return values of EngineFactory.Search"])

prop("C05", "Goroutines of a session share no memory without synchronisation",
     "While tags are received and searched for, engines are generated, measured and replaced, and statistics are written, no memory is accessed by two goroutines at once, one of them writing: every such access is ordered by a channel, a lock, an atomic operation or the start of the goroutine. This holds for every schedule.",
     ["schedules"], "all schedules (the order that synchronisation guarantees, whatever the schedule), engines generated and intervals ending at any of several times",
     "Tests run one goroutine, and a race shows in a run of many, if at all, as a crash or a wrong answer; the race detector sees only the accesses of the runs it watches.",
     ["filtering/engine_factory.go", "filtering/engine_generator.go", "cmd/gosstrak-fc/main.go", "monitoring/stat_manager.go"], [("the name of the engine in use", "filtering/engine_factory.go:Search"), ("an engine is searched once it is ready", "filtering/engine_generator.go:enterGenerating"), ("the buffers of a session", "cmd/gosstrak-fc/main.go:run")], ["reports of the race detector", "accesses of the goroutines"])

prop("M01", "Every statistic is written to the database once, as what it is",
     "Each message to the statistics manager becomes one point, which is written once, when the message comes, to the configured database with the configured credentials: traffic with the searches, the matches and (if there were searches) the percentage of matches, throughput with the searches per microsecond, both tagged with the engine; the engine in use as its number (text engine 0, list 1, trie 2, splay tree 3). No point replaces another one: points of one measurement and engine have different times. Traffic messages whose values aren't counts are skipped, and the manager goes on.",
     ["histories", "inputs"], "all sequences of messages, all counts",
     "The package has no tests.",
     ["monitoring/stat_manager.go"], [("message loop", "monitoring/stat_manager.go:NewStatManager")], ["points the database receives"])
prop("W01", "A session answers the interrogator and searches for every tag it reports",
     "Whatever the interrogator sends, in pieces of any size: each reader event notification is answered with SET_READER_CONFIG and each keepalive with KEEPALIVE_ACK, in order, well-formed and with message IDs starting from the one configured; other messages aren't answered. Every tag of every report is searched for exactly once, in order, with the ID and protocol control bits that were read.",
     ["histories", "inputs", "schedules"], "all sequences of messages and their contents, all ways of cutting the stream into pieces, all schedules",
     "The only test of the command is an empty table.",
     ["cmd/gosstrak-fc/main.go"], [("session with the interrogator", "cmd/gosstrak-fc/main.go:run"), ("ReadEvent listener", "cmd/gosstrak-fc/main.go:run")], ["bytes sent to the interrogator", "searches of the engines"])
prop("W02", "The statistics of a session are those of the tags the interrogator reported",
     "With statistics enabled, the traffic points the database receives for an engine add up to the tags reported and to those of them that match the patterns loaded from the file, whenever intervals end in between; every engine searches for every tag, points name their engine, and the selected engine that is written is the one in use.",
     ["histories", "inputs", "schedules", "configurations"], "all reports and tags, all orders of reports and intervals, all sets of patterns",
     "Nothing tests the command as a whole: file, engines, factory, session and statistics together.",
     ["cmd/gosstrak-fc/main.go", "filtering/engine_factory.go", "filtering/subscriptions.go", "monitoring/stat_manager.go"], [("management channel to statistics", "cmd/gosstrak-fc/main.go:run")], ["points the database receives"])
prop("B03", "A file of subscriptions is loaded as it is written",
     "Loading a file subscribes each address (in lower case) to exactly the EPC patterns on its rows, in the order of the file and as they are written, whether quoted or not and whatever the ends of lines are; rows of something else than an address and fields which aren't patterns are skipped.",
     ["inputs"], "all files",
     "Tests load one file.",
     ["filtering/subscriptions.go"], [("LoadSubscriptionsFromCSVFile", "filtering/subscriptions.go:LoadSubscriptionsFromCSVFile")], ["return value"])
prop("G01", "Binary and hexadecimal text of tags becomes the bytes it spells or an error",
     "Text of zeros and ones is turned into the bytes whose bits it spells, and is an error unless it is one or more whole bytes. Text of hexadecimal digits is turned into the protocol control bits it spells; other text and numbers of more than 16 bits are errors.",
     ["inputs"], "all texts",
     "Tests convert one text each.",
     ["cmd/gobtags/main.go"], [("makeByteID, makeUint16PC", "cmd/gobtags/main.go")], ["return values"])
prop("G02", "The six-bit encoder spells its characters, six bits each, in order",
     "The command line encoder turns text into the six bits of each character, in order, for every character with a six-bit form.",
     ["inputs"], "all texts of characters with a six-bit form",
     "Tests encode two texts.",
     ["scheme/sixenc2bin/main.go"], [("sixenc2bin", "scheme/sixenc2bin/main.go:sixenc2bin")], ["return value"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")

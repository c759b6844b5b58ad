#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements stay reviewable)."""
import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,
        "state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],
        "mechanism":[{"name":a,"where":b} for a,b in mech],
        "observe_at":list(observe),"hook_needed":hook}})

prop("C01","A rendered duration is canonical and carries the right value",
 "Rendering any duration, of either sign and any magnitude, never fails and yields a valid xs:duration built only from hours, minutes and seconds. Its value, sign included, is within half a millisecond of the duration, and exactly equal to it when the duration is a whole number of milliseconds or is so small that it would round to zero. Minutes and seconds are below 60, no component is zero-padded and seconds never end in a superfluous decimal zero.",
 ["inputs"],"all 2^64 duration values",
 "The table test renders about twenty values; carries between milliseconds, seconds, minutes and hours and the sub-second branches depend on the exact value.",
 ["mpd/duration.go"],[("duration rendering","mpd/duration.go: (*Duration).String, fmtFrac, fmtInt, MarshalXMLAttr")],
 observe=["return value of Duration.String","duration attributes in written XML"])
prop("C02","Duration parsing accepts exactly the supported grammar, with exact values",
 "Parsing a duration succeeds for exactly the strings P[nD][T[nH][nM][n(.n)S]] that have at least one component, in that order, no sign and no empty time part, and whose value is representable. The value returned is the sum of the components (seconds to the nearest nanosecond). Every other string, including one whose value is too large, gives an error and never a value or a panic.",
 ["inputs"],"all strings",
 "The tests hold some fifty strings; the grammar has unboundedly many accepted and rejected strings and overflow occurs only for huge components.",
 ["mpd/duration.go"],[("duration scanner","mpd/duration.go: ParseDuration, (*Duration).UnmarshalXMLAttr")],
 observe=["return values of ParseDuration","error from reading an MPD with a bad duration"])
prop("C03","Durations survive rendering and parsing again",
 "For every non-negative duration whose value rounded to a millisecond is representable, parsing its rendering gives the duration rounded to a millisecond (unchanged if it was smaller than that resolution), and rendering the parsed value gives the same text again. The rendering of a negative duration is rejected by the parser, never read as something else.",
 ["inputs"],"all durations",
 "It relates two functions over 2^63 values; tests check each function on its own table.",
 ["mpd/duration.go"],[("rendering and parsing","mpd/duration.go: (*Duration).String, ParseDuration")],
 observe=["ParseDuration(d.String())"])
prop("C04","Date-time conversions agree with the calendar and with each other",
 "Converting a number of seconds or milliseconds to a date-time gives the UTC instant, cropped to milliseconds, and converting a date-time to seconds gives the seconds between the Unix epoch and that instant, for every year the text format can express. Converting to text and back therefore returns the value, and anything that is not a date-time gives an error.",
 ["inputs"],"all second and millisecond counts whose year has four digits; all strings",
 "Tests convert a handful of instants close to today; wrong units, rounding before 1970 and overflow of intermediate nanoseconds only show elsewhere.",
 ["mpd/io.go"],[("conversions","mpd/io.go: ConvertToDateTime, ConvertToDateTimeS, ConvertToDateTimeMS, ConvertToSeconds; mpd/ptrs.go: Seconds2DurPtr, Seconds2DurPtrFloat64")],
 observe=["return values"])
prop("C05","Period start, duration, type and index follow the MPD timeline rules",
 "The start of a period is its start attribute, else the previous period's start plus its duration, else zero for the first period of a static MPD, else an error; its absolute start adds the availability start time. Its duration is its duration attribute, else the next period's start (or the presentation end for the last period of a static MPD) minus its own start, else an error. Its index is its position among the MPD's periods and its type follows the presence of start, duration and the neighbours' attributes, for MPDs with any number of periods.",
 ["inputs"],"all MPDs with any number of periods and any combination of start and duration attributes",
 "Tests use at most three periods and a few attribute combinations; chains of periods without start need induction.",
 ["mpd/period.go","mpd/mpd.go"],[("timeline queries","mpd/period.go: AbsoluteStart, GetIndex, GetType, GetStart, GetDuration; mpd/mpd.go: (*MPD).GetType")],
 state=[("Period.parent","the MPD that holds the period","mpd/mpd.go Period")],
 observe=["return values and errors of the Period getters"])
prop("C06","Parent links are right after reading, cloning, appending and linking",
 "After an MPD is read or cloned, or its links are set, every period, adaptation set, representation and sub-representation in it links to the element that contains it; cloning or linking a subtree does so for the whole subtree. Appending adds exactly one child at the end, links it, and changes nothing else. None of these operations alters any other field of any element.",
 ["inputs","histories"],"all element trees of any width, all sequences of append and link operations",
 "Tests look at a few links in a few files; the guarantee is for every element at every level of any tree.",
 ["mpd/parents.go","mpd/mpd.go","mpd/period.go","mpd/io.go"],
 [("link setting","mpd/parents.go: SetParents, Append*"),("link setters","mpd/mpd.go: SetParent, Parent, Clone"),("reading","mpd/io.go: ReadFromFile, ReadFromString, MPDFromBytes")],
 state=[("parent","containing element","mpd/mpd.go Period, AdaptationSetType, RepresentationType, SubRepresentationType")],
 observe=["Parent()","element slices"])
prop("C07","A clone is equal, complete and shares nothing with the original",
 "Cloning an MPD, a period or an adaptation set gives a tree with the same content in every exported field. Changing anything reachable from the clone never changes the original, and the reverse. The clone's elements link to each other and never to the original's.",
 ["inputs","histories"],"all trees and all later modifications of either copy",
 "Tests clone one file and compare it; sharing shows only when the particular shared part is modified.",
 ["mpd/mpd.go","mpd/period.go"],[("cloning","mpd/mpd.go: Clone, (*AdaptationSetType).Clone; mpd/period.go: (*Period).Clone")],
 observe=["clone compared with original before and after mutation"])
prop("C08","Representation getters inherit from the adaptation set and expand templates",
 "A representation's mime type, codecs, segment template and content protections are its own when set and its adaptation set's otherwise. Its initialization and media URLs are those of the effective segment template with every $RepresentationID$ and $Bandwidth$ replaced by its own id and bandwidth and nothing else changed. A missing parent or template gives an error for the URLs.",
 ["inputs"],"all representations, adaptation sets, ids, bandwidths and template strings",
 "Tests use a few manifests whose templates hold each identifier at most once.",
 ["mpd/mpd.go"],[("inheriting getters","mpd/mpd.go: RepresentationType and AdaptationSetType Get*")],
 observe=["return values"])
prop("C09","Segment base ranges and timescale are consistent",
 "Setting a segment base from a non-zero initialization size and a non-zero index size gives the initialization byte range 0 to size-1 and an index range that starts right after it and covers exactly the index bytes, with the exactness flag as given and every other field empty. The timescale read back is always the one set, an unset timescale reads as 1, and setting the default 1 leaves the attribute unset.",
 ["inputs"],"all non-zero 32-bit sizes, all timescales",
 "No test covers the range arithmetic for more than one pair of sizes.",
 ["mpd/mpd.go"],[("segment base","mpd/mpd.go: SetSegmentBase, GetTimescale, SetTimescale")],
 observe=["SegmentBase fields"])
prop("C10","Profile lists grow without duplicates or loss",
 "Adding a profile, itself without commas, to a comma-separated profile list gives a list that contains that profile exactly as an element, keeps every earlier element in its order, and is unchanged when the profile was already an element. A profile that is merely a substring of an element is still added.",
 ["inputs","histories"],"all lists and profiles without commas",
 "Tests add two profiles; prefixes, substrings and repeated additions are open.",
 ["mpd/mpd.go"],[("AddProfile","mpd/mpd.go: ListOfProfilesType.AddProfile")],
 observe=["return value"])
prop("C11","Custom attribute values are written and read back unchanged",
 "Writing an attribute that may be infinite gives INF for positive infinity and, for every finite number, a plain decimal without exponent that reads back as the same number; reading INF gives positive infinity and malformed text gives an error and leaves the value alone. A nil duration or number writes no attribute, and a duration attribute carries exactly its rendering under the attribute's own name.",
 ["inputs"],"all float64 values, all durations, all attribute names and strings",
 "Tests check INF and one decimal value.",
 ["mpd/mpd.go","mpd/duration.go"],[("attribute codecs","mpd/mpd.go: FloatInf64 MarshalXMLAttr/UnmarshalXMLAttr; mpd/duration.go: Duration MarshalXMLAttr/UnmarshalXMLAttr")],
 observe=["xml.Attr produced","value after unmarshal"])
prop("C12","Writing reports the true byte count and every write error",
 "Writing an element, a period or an MPD to a writer returns exactly the number of bytes the writer accepted, and returns the writer's error whenever it reports one at any point; on success everything, header included when asked for, has reached the writer. Writing to a string gives the same bytes.",
 ["inputs","fault_sequences"],"all elements, all writers, a failure or short write at any call",
 "Tests write to a buffer that never fails.",
 ["mpd/io.go","xml/marshal.go"],[("counting writer","mpd/io.go: countingWriter, WriteXML, Write, WriteToString"),("sticky error","xml/marshal.go: printer.Write, WriteString, WriteByte, cachedWriteError, Encode, Flush")],
 observe=["returned count and error","bytes received by the writer"])
prop("C13","A pooled encoder behaves like a new one",
 "An encoder obtained from the pool writes to the given writer exactly what a new encoder would, whatever was encoded, failed, left open or configured through it before. A released encoder keeps no reference to the caller's writer and carries no indentation, prefix, error, closed state, open element or counter into its next use.",
 ["histories","fault_sequences"],"all histories of use, including failed and abandoned encodings, before release",
 "Tests reuse an encoder after one successful encoding; the state left by failures and custom configuration is not reached.",
 ["xml/marshal.go"],[("pool","xml/marshal.go: AcquireEncoder, ReleaseEncoder, encoderPool")],
 state=[("printer","encoder state between calls","xml/marshal.go printer")],
 observe=["bytes written after reuse"])
prop("C14","Escaped text contains no markup and reads back as the original",
 "Escaping any text for element content or attribute values yields output in which no raw markup character, quote or forbidden character of the input appears, invalid or non-XML characters become the replacement character, and all other characters are unchanged and in order. Reading the escaped form back gives the original text for all valid XML text.",
 ["inputs"],"all byte strings, valid UTF-8 or not",
 "Tests escape a few dozen strings; the guarantee is over every rune at every position.",
 ["xml/xml.go","xml/marshal.go"],[("escaping","xml/xml.go: EscapeText, escapeText, (*printer).EscapeString, isInCharacterRange"),("decoding","xml/xml.go: (*Decoder).text")],
 observe=["bytes written by EscapeText and in written elements and attributes"])
prop("C15","Comments, CDATA, instructions and directives cannot break out of their markup",
 "Text written as CDATA reads back as that text and never ends its section early. Comments, processing instructions and directives whose content would end the construct early or unbalance it, or whose target is not a name, are refused with an error and everything else is written verbatim between the construct's own delimiters.",
 ["inputs"],"all contents",
 "Tests hold a few offending strings; terminators may occur at any offset, overlap and repeat.",
 ["xml/marshal.go","xml/xml.go"],[("guards","xml/marshal.go: EncodeToken, isValidDirective; xml/xml.go: emitCDATA, procInst")],
 observe=["bytes written, errors"])
prop("C16","Encoded elements always nest, and mismatched ends are refused",
 "For every sequence of start and end tokens an encoder accepts, each end tag written names the innermost open element, with the prefix it was opened with, and the number of open elements is starts minus ends. An end token that does not match the innermost open element, an end without a start or a nameless token is refused and changes nothing; closing an encoder with open elements is an error.",
 ["histories"],"all token sequences and element stacks",
 "Tests run a table of short sequences; matching concerns stacks of any depth with prefixes and namespaces.",
 ["xml/marshal.go"],[("element stack","xml/marshal.go: writeStart, writeEnd, EncodeToken, Close, parentStack.trim/push, newElement, splitPrefixed, joinPrefixed")],
 state=[("printer.elements","open elements, innermost last","xml/marshal.go printer")],
 observe=["bytes written, errors"])
prop("C17","Every namespace prefix written is bound to the right namespace",
 "Whenever an element or attribute with a namespace is written with a prefix, that prefix is declared in scope at that point and bound to exactly that namespace, declared once in that element at most. A prefix is never re-bound to another namespace within the scope of one element, the preferred prefix is used when it is free, and the reserved xml prefixes are never redefined. An element of a namespace that is written without a prefix declares it as default namespace, or stands inside one that did.",
 ["inputs","histories"],"all namespaces, preferred prefixes, and stacks of open elements",
 "Prefix clashes arise only from particular combinations of outer declarations, preferred prefixes and attribute order.",
 ["xml/marshal.go"],[("prefix allocation","xml/marshal.go: getPrefix, createPrefix, writeStart, writePrefixAttr")],
 state=[("element.nsToPrefix/prefixToNS","declarations made at an open element","xml/marshal.go element")],
 observe=["bytes written"])
prop("C18","The decoder's element stack and namespace scopes follow the input",
 "Every end tag the decoder accepts matches the innermost open start tag, and the prefixes visible after it are exactly those visible before the element was opened, whatever the element declared. Names are translated with the innermost declaration in scope, skipping an element consumes exactly that element, and input that ends inside an element or mismatches a tag is an error in strict mode. In every mode a start tag ends at its own closing bracket.",
 ["inputs","histories"],"all documents and all interleavings of token, skip and decode calls",
 "Scope restoration depends on shadowing and re-declaration patterns at arbitrary depth; tests hold a few shallow documents.",
 ["xml/xml.go","xml/read.go"],[("stack and scopes","xml/xml.go: push, pop, pushElement, popElement, pushNs, translate, pushEOF, popEOF, autoClose"),("skip","xml/read.go: Skip")],
 state=[("Decoder.stk","open elements and saved namespace bindings, innermost first","xml/xml.go Decoder"),("Decoder.ns","bindings in scope","xml/xml.go Decoder")],
 observe=["tokens, names, errors"])
prop("C19","Decoding any input terminates with a value or an error, never a crash",
 "Reading any byte sequence, delivered in any chunking and with any read failure, returns tokens, a decoded value or an error; it never panics, never loops without consuming input, never recurses deeper than a fixed limit, and a read failure other than end of input is what is reported. The input offset reported always counts exactly the bytes consumed.",
 ["inputs","fault_sequences"],"all byte sequences, chunkings and read errors",
 "Malformed input space is unbounded; tests contain tens of malformed samples.",
 ["xml/xml.go","xml/read.go"],[("scanner","xml/xml.go: getc, mustgetc, ungetc, rawToken, text, name, readName, attrval, space"),("depth limit","xml/read.go: unmarshal, maxUnmarshalDepth, Skip")],
 state=[("Decoder.nextByte/err/offset","scanner position","xml/xml.go Decoder")],
 observe=["errors, InputOffset, InputPos"])
prop("C20","Numbers and booleans read from XML are exact or refused",
 "Text bound to an integer, float or boolean is stored exactly when it denotes a value the destination can hold, and is refused with an error otherwise; it is never truncated, wrapped or replaced, and surrounding white space is ignored. Writing a number or boolean gives text that reads back as the same value.",
 ["inputs"],"all texts, all destination widths, all values",
 "Range errors sit at the limits of each width; tests store small numbers.",
 ["xml/read.go","xml/marshal.go"],[("text to value","xml/read.go: copyValue"),("value to text","xml/marshal.go: marshalSimple")],
 observe=["decoded fields, errors"])
prop("C21","Every field of an MPD survives writing and reading",
 "Writing any MPD tree and reading it back gives an equal tree: every attribute and element the types can hold is written, under its schema name and namespace, and is read into the same field, and writing again gives the same bytes. Nothing that is set is silently dropped, moved to another field or rejected by the reader.",
 ["inputs"],"all values of all MPD types (with XML-valid text and canonical numbers)",
 "The sample manifests use a fraction of the fields, and each field's tag must be right for both directions.",
 ["mpd/mpd.go","mpd/scte35.go","mpd/scte214.go","mpd/up.go","xml/typeinfo.go","xml/read.go","xml/marshal.go"],
 [("field binding tags","mpd/*.go struct tags"),("binding engine","xml/typeinfo.go, xml/read.go: unmarshal, xml/marshal.go: marshalValue")],
 observe=["written XML, decoded tree"])
prop("C22","SCTE-35 helpers use the canonical namespace and find the splice info",
 "Every SCTE-35 constructor gives a fresh element in the canonical SCTE-35 namespace with its own element name, the given values and nothing else set. An event stream is recognised as SCTE-35 exactly for the three defined schemes, an event's splice info is the one inside its signal when there is one and the directly attached one otherwise, and the namespace an SCTE-35 element was read with is the one it is written with.",
 ["inputs"],"all arguments, scheme strings and events",
 "Tests construct some of the elements with fixed values.",
 ["mpd/scte35.go"],[("constructors and accessors","mpd/scte35.go: New*, canonicalSCTE35Name, IsSCTE35, SpliceInfo")],
 observe=["returned structs, written XML"])
prop("C23","Constructors give fresh elements with exactly the given values",
 "Each constructor of an MPD element returns a new element that holds the given arguments in the corresponding fields and leaves every other field empty, sharing no storage with earlier results. Integer arguments within the field's range are kept exactly.",
 ["inputs"],"all arguments",
 "Tests set a few arguments and inspect a few fields.",
 ["mpd/mpd.go","mpd/ptrs.go","mpd/scte214.go"],[("constructors","mpd/mpd.go: New*; mpd/ptrs.go: Ptr; mpd/scte214.go: NewSCTE214ContentIdentifier")],
 observe=["returned structs"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in P))
print(len(P))

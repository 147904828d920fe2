#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the texts are readable and diffable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=observe, hook_needed=None)))

p("C01", "Decoding an encoded PDU gives the PDU back",
  "For every PDU of any of the 18 AgentX types, in either byte order and with any flags that its type allows, if encoding succeeds then decoding the first 20 bytes as a header and the rest as a payload succeeds and yields the same type, flags, session, transaction and packet ids, context, parameters, search ranges and varbinds, every value with its exact type and bits. "
  "Only what the wire format does not carry is exempt: the context without the context flag, ranges and varbinds of a type that has none, the upper bound when the range sub-id is 0, the include flag of a null starting OID, and the value of a varbind type that has no value (a nil and an empty list are the same).",
  ["inputs"], "all PDUs: 18 types x allowed flag sets x ids x contexts x parameters x lists of ranges and varbinds of every value type and bit pattern",
  "TestPduEncoding round-trips one PDU per type and byte order (one range, one Integer32 varbind, one context); boundary values (sub-ids 0/255/256, padding residues, sign bits, long OIDs, empty and long lists, mixed value types) are never combined.",
  ["agentx/pdu.go", "agentx/encoding.go", "agentx/payload_params.go", "agentx/varbind.go", "agentx/search_range.go"],
  [("EncodePdu / DecodePduHeader / DecodePduPayload", "agentx/pdu.go"), ("append*/parse* pairs", "agentx/encoding.go"), ("vbtable", "agentx/varbind.go")],
  ["agentx.EncodePdu", "agentx.DecodePduHeader", "agentx.DecodePduPayload"])

p("C02", "Encoded bytes are exactly the RFC 2741 layout",
  "For every PDU that encodes, the bytes are exactly the RFC 2741 encoding: version 1, type, flags, a zero reserved byte, ids and payload length; then the context only if flagged, the parameters of the type, the ranges or varbinds of the types that carry them; multi-byte integers in the announced byte order, strings zero-padded to 4 bytes, all reserved bytes zero, an OID beginning 1.3.6.1.x with x in 1..255 shortened to a prefix byte and every other OID written in full, a null OID as four zero bytes. "
  "The payload length in the header always equals the number of payload bytes that follow and is a multiple of 4, whatever length the caller's PDU holds.",
  ["inputs"], "all encodable PDUs",
  "The tests compare bytes for about 60 hand-written values; they cannot reach every combination of type, flags, OID shape, string length and byte order.",
  ["agentx/pdu.go", "agentx/encoding.go", "agentx/payload_params.go", "agentx/varbind.go", "agentx/search_range.go", "agentx/flags.go", "agentx/docs/encoding.txt", "docs/rfc2741.AgentX.txt"],
  [("countPayloadSize vs append*", "agentx/pdu.go"), ("prefix compression", "agentx/encoding.go appendObjectId/objectIdEncodingSize"), ("byteOrder implementations", "agentx/encoding.go")],
  ["agentx.EncodePdu"])

p("C03", "A PDU that cannot be represented is refused, every other one is encoded",
  "Encoding reports failure, without panicking, exactly when the type is unknown, the parameters are missing or not those of the type, the flags include one that the type does not allow, an OID that is to be written needs more than 255 sub-identifiers on the wire, a GetBulk counter is negative, the payload would take 2^31 bytes or more, or a varbind to be written has a type that AgentX does not carry or a value whose Go type does not match its tag. "
  "Every other PDU is encoded successfully.",
  ["inputs"], "all PDU structures a caller can build, valid or not",
  "No test encodes an invalid PDU.",
  ["agentx/pdu.go", "agentx/pdu_tag.go", "agentx/varbind.go", "agentx/encoding.go", "agentx/payload_params.go"],
  [("isApplicableParams, allowedFlags", "agentx/pdu_tag.go"), ("recover in EncodePdu", "agentx/pdu.go"), ("type assertions in vbtable", "agentx/varbind.go")],
  ["agentx.EncodePdu"])

p("C04", "The header decoder accepts exactly the well-formed headers",
  "For every byte string, header decoding succeeds if and only if it is exactly 20 bytes with version 1, a known PDU type, no flag that the type does not allow, a zero reserved byte and a payload length that is non-negative and a multiple of 4. "
  "On success the type, flags, ids and payload length are those the bytes denote in the byte order selected by the flags.",
  ["inputs"], "all byte strings offered as a header",
  "The tests decode 36 well-formed headers and no malformed one.",
  ["agentx/pdu.go", "agentx/pdu_tag.go", "agentx/flags.go"],
  [("DecodePduHeader checks", "agentx/pdu.go"), ("NotAllowedFlags", "agentx/pdu_tag.go")],
  ["agentx.DecodePduHeader"])

p("C05", "The payload decoder accepts exactly the well-formed payloads",
  "For every PDU header and every byte string, payload decoding succeeds if and only if the bytes are as many as the header announces and are, with nothing missing and nothing left over, the context (if flagged), parameters, ranges or varbinds of that PDU type with zero reserved and padding bytes, non-negative string lengths, 4-byte IP addresses, non-negative GetBulk counters and varbind types that AgentX defines. "
  "On success the payload fields are exactly what the bytes denote, however the bytes came about.",
  ["inputs"], "all pairs of header and payload bytes, including truncated, extended, bit-flipped and non-canonical ones",
  "The tests decode well-formed payloads produced from the same values; TestDemo damages one byte and looks only at the log.",
  ["agentx/pdu.go", "agentx/encoding.go", "agentx/payload_params.go", "agentx/varbind.go", "agentx/search_range.go"],
  [("parse* functions with ErrEncoding panics", "agentx/encoding.go"), ("recover and len(data)==0", "agentx/pdu.go DecodePduPayload")],
  ["agentx.DecodePduPayload"])

p("C06", "Hostile input cannot crash, hang or exhaust the decoder",
  "For every byte string given to the header or payload decoder, plain or debug, the call returns normally in bounded time: no panic escapes it. "
  "The memory that the plain decoders allocate is bounded by a fixed multiple of the bytes actually supplied, whatever sizes and counts those bytes claim.",
  ["inputs"], "all byte strings from an untrusted peer",
  "Needs adversarial length and count fields; the tests decode only well-formed data and never measure.",
  ["agentx/pdu.go", "agentx/encoding.go", "agentx/encoding_dbg.go"],
  [("deferred recover", "agentx/pdu.go"), ("bounds check before make", "agentx/encoding.go parseOpaque/parseOctetString")],
  ["agentx.DecodePduHeader", "agentx.DecodePduPayload", "agentx.DecodePduHeaderDbg", "agentx.DecodePduPayloadDbg"])

p("C07", "Debug functions are equivalent to the plain ones",
  "For every PDU and every byte string, the debug version of encoding, header decoding and payload decoding succeeds exactly when the plain version does, and on success returns the same bytes or the same PDU; neither panics where the other does not.",
  ["inputs"], "all PDUs (valid or not) and all byte strings (well-formed or not)",
  "The tests run both versions on the same well-formed samples only; the error paths and the size checks of the two are written separately.",
  ["agentx/pdu.go", "agentx/encoding_dbg.go", "agentx/payload_params.go", "agentx/varbind.go", "agentx/search_range.go"],
  [("encoderDbg/decoderDbg mirror encoder/decoder", "agentx/encoding_dbg.go"), ("*Dbg functions", "agentx/pdu.go")],
  ["agentx.EncodePduDbg", "agentx.DecodePduHeaderDbg", "agentx.DecodePduPayloadDbg"])

p("C08", "A stream of PDUs stays framed, even across damaged payloads",
  "A receiver that repeatedly reads 20 bytes, decodes the header and then reads as many bytes as the header announces recovers from any concatenation of encoded PDUs, however the stream is cut into chunks, exactly the PDUs that were sent, in order, none lost, duplicated or merged. "
  "Damage confined to the payload of one PDU never affects the PDUs after it.",
  ["histories", "fault_sequences"], "all sequences of PDUs (mixed types and byte orders), all chunkings, all payload damages",
  "TestDemo exchanges three fixed messages and does not check what was received.",
  ["agentx/pdu.go", "agentx/agentx.go", "demo/agentx_demo_test.go"],
  [("PayloadSize set by EncodePdu", "agentx/pdu.go"), ("PduHeaderSize", "agentx/pdu.go")],
  ["agentx.EncodePdu", "agentx.DecodePduHeader", "agentx.DecodePduPayload"],
  [("stream", "bytes in flight", "caller's connection"), ("PayloadSize", "announced size of the next payload", "agentx.Pdu")])

p("C09", "Codec calls are pure: no aliasing, no mutation, no hidden state",
  "Encoding and decoding never modify the PDU or the bytes they are given and never return memory shared with them or with another result, so a caller may reuse its buffers and change a PDU, its lists or its values without changing what was encoded or decoded before, and a write to one part of a decoded PDU changes no other part. "
  "The result depends on the arguments only: not on earlier calls, not on ranges or varbinds that the target PDU already holds, and not on calls running concurrently. The same holds for the debug variants.",
  ["histories", "schedules"], "all interleaved sequences of encode, decode and caller writes to buffers and PDUs; concurrent callers",
  "Every test uses fresh buffers and looks at each result once, immediately.",
  ["agentx/pdu.go", "agentx/encoding.go", "agentx/varbind.go"],
  [("copies in parseOctetString/parseOpaque/parseObjectId", "agentx/encoding.go"), ("fresh make in EncodePdu", "agentx/pdu.go"), ("read-only tables", "agentx/pdu_tag.go, agentx/varbind.go")],
  ["agentx.EncodePdu", "agentx.DecodePduHeader", "agentx.DecodePduPayload"])

p("C10", "OID comparison is the lexicographic total order",
  "For all OIDs, the three-way comparison returns -1, 0 or +1 according to the lexicographic order of their sub-identifiers as unsigned 32-bit numbers, a proper prefix being smaller and a nil OID equal to an empty one. "
  "The predicates less, less-or-equal, equal, not-equal, greater-or-equal and greater agree with it, and the prefix test holds exactly when the given sub-identifiers are the beginning of the OID.",
  ["inputs"], "all pairs and triples of OIDs",
  "Twelve short pairs with small sub-ids are tested; the predicates other than equality are never called.",
  ["oid/oid.go"], [("Compare, Lt, Le, Eq, Ne, Ge, Gt, HasPrefix", "oid/oid.go")],
  ["oid.Compare", "oid.Lt", "oid.Le", "oid.Eq", "oid.Ne", "oid.Ge", "oid.Gt", "oid.HasPrefix"])

p("C11", "OID copies and concatenations are correct and independent",
  "Cloning an OID gives an equal OID and appending sub-identifiers gives the OID followed by them, in both cases as a new instance: no later write to an argument or to another result, and no append to one, changes any other OID, even when the argument has spare capacity or several results are made from the same one. "
  "The arguments are not modified.",
  ["histories", "inputs"], "all sequences of clone, cat and in-place writes over a pool of OIDs sharing backing arrays",
  "The tests compare each result once and never write to an argument or result afterwards.",
  ["oid/oid.go"], [("make+copy in Clone and Cat", "oid/oid.go")],
  ["oid.Clone", "oid.Cat"])

p("C12", "OID text form and parser are exact inverses, and junk is refused",
  "The text of an OID is its sub-identifiers in decimal separated by dots, and parsing the text of any OID of at most 128 sub-identifiers, with or without one leading dot, returns that OID. "
  "For every other string the parser returns an OID exactly when the string, without one optional leading dot, is empty or is 1 to 128 dot-separated runs of decimal digits each denoting at most 4294967295, and panics otherwise.",
  ["inputs"], "all OIDs and all strings",
  "Four valid strings are tested; no invalid string, no boundary of the number range or of the length.",
  ["oid/oid.go"], [("Parse, String, Fprint", "oid/oid.go")],
  ["oid.Parse", "oid.String", "oid.Fprint"])

p("C13", "An OID tree behaves as a prefix-closed set of nodes through any history",
  "After any sequence of add, get, remove and clear, a tree holds exactly the nodes that a prefix-closed set of OIDs would: adding an OID creates it and its missing ancestors and returns the new node, or returns nothing if it is already there; removing takes it and everything below it and nothing else, and reports whether it was there; getting returns the very node, with the data stored in it, if and only if it is present; clearing leaves only the root. "
  "At every moment each node's children are in strictly increasing sub-identifier order, their parent links lead back to it, and removing and re-adding an OID yields a node without data.",
  ["histories"], "all operation sequences over all OID sets",
  "The only tree test adds three siblings in increasing order and prints the leaves; get, remove and clear are never called.",
  ["oid/tree.go", "oid/node.go"],
  [("searchChild/addChild/removeChild", "oid/node.go"), ("addNode/getNode/removeNode", "oid/node.go")],
  ["oid.Tree.AddNode", "oid.Tree.GetNode", "oid.Tree.RemoveNode", "oid.Tree.Clear", "oid.Node fields"],
  [("nodes", "set of OIDs present", "oid.Node.Children"), ("data", "user data per node", "oid.Node.Data")])

p("C14", "GetNext finds the least leaf in the range, or nothing",
  "For every tree, start OID, include flag and end OID, the next-node search returns the leaf with the lexicographically least OID that is greater than the start (or equal to it, if included) and less than the end, a nil or empty end meaning no bound, and returns nothing if there is no such leaf. "
  "A leaf is a node other than the root that has no children; whether the bounds name nodes of the tree makes no difference.",
  ["inputs", "histories"], "all trees x all pairs of bounds (present, absent, prefixes and extensions of nodes) x include",
  "GetNext is never called by a test.",
  ["oid/node.go", "oid/tree.go"], [("getNextNode", "oid/node.go")],
  ["oid.Tree.GetNextNode"])

p("C15", "Walking the leaves visits each leaf once, in order",
  "For every tree, the leaf traversal calls the visitor exactly once per leaf, in increasing lexicographic order, with that leaf's OID and node, and calls it for no other node. "
  "The OID passed to one call is never altered by later calls, and repeated next-node searches starting from nothing visit the same sequence.",
  ["inputs", "histories"], "all trees after any history",
  "TestForRangeLeaves prints the three leaves of one tree and asserts nothing.",
  ["oid/node.go", "oid/tree.go", "oid/oid.go"], [("forRangeLeaves", "oid/node.go"), ("Cat", "oid/oid.go")],
  ["oid.Tree.ForRangeLeaves", "oid.Tree.GetNextNode"])

p("C16", "Concurrent tree operations are atomic",
  "When goroutines call add, get, next, remove, clear and the leaf traversal of one tree concurrently, every call returns as if the calls had run one at a time in some order that respects which finished before which began, and the tree ends in the state of that order. "
  "No schedule makes these calls race on the tree's memory, panic or deadlock (visitors that call back into the tree excepted).",
  ["schedules", "histories"], "all schedules of concurrent callers",
  "No test uses a tree from two goroutines.",
  ["oid/tree.go", "oid/node.go"], [("sync.RWMutex around each operation", "oid/tree.go")],
  ["oid.Tree methods"],
  [("lock", "reader/writer lock", "oid.Tree.lock")])

p("C17", "Hex dumps and dump diffs show exactly the bytes",
  "For all data and bounds, the dump of a range is lines of up to four bytes, each with the prefix, the 8-digit hex offset of its first byte in the whole data and the bytes in upper-case hex, covering every byte of the range once and in order; an empty range gives only its offset and an invalid one a message naming the bounds, and the tail and full dumps are the dumps of the last size bytes and of everything. "
  "The dump diff of two byte strings is empty exactly when they are equal and otherwise shows every 4-byte row of both, as one line where they agree and as a marked pair where they differ.",
  ["inputs"], "all byte strings, bounds, prefixes and sizes",
  "The hex package has no tests; the codec tests only check that a diff of equal data is empty.",
  ["hex/dump.go", "generics/generics.go"], [("DumpSub, DumpTail, Dump, DumpDiff, encodeOffset, encodeData", "hex/dump.go")],
  ["hex.DumpSub", "hex.DumpTail", "hex.Dump", "hex.DumpDiff"])

p("C18", "Text of values, varbinds, ranges and PDUs is faithful and total",
  "For every value, varbind, search range, IP address and PDU, well-typed or not, the text form is produced without panicking and shows each field: integers in decimal by their own signedness and width, OIDs and IP addresses dotted, octet strings verbatim, opaque bytes as a braced decimal list, a value that does not fit its tag as '?', tags, flags and reasons by name. "
  "The text of a PDU has one line 'Field: value' per field in order, nested lists and structures indented below, and its lists marked <empty> and missing parameters <nil>.",
  ["inputs"], "all values and PDUs, including ill-typed values and unknown tags",
  "Text forms are used by the tests to compare PDUs but never compared with an expected text except three OIDs.",
  ["asn/value.go", "asn/varbind.go", "agentx/search_range.go", "ipa/ip_address.go", "internal/struct.go", "internal/indent.go", "agentx/pdu.go"],
  [("table fprint functions", "asn/value.go"), ("StructString", "internal/struct.go")],
  ["asn.Varbind.String", "asn.Tag.Fprint", "agentx.SearchRange.String", "ipa.String", "agentx.Pdu.String"])

p("C19", "Protocol names and numbers are those of the standards, and unknowns show",
  "Every named PDU type, flag, close reason, error and value tag has the number that RFC 2741 and the SNMP standards assign to it, is recognised exactly where it is known and has its own name as text, and every well-known MIB name maps to its registered OID. "
  "Every number without a name is rendered as text that shows the number and coincides with no name, a set of flags is rendered as the names of its bits in increasing order separated by '|', and the flags not allowed for a type are exactly those outside its allowed set.",
  ["inputs", "configurations"], "all 256 type, flag, reason and tag bytes, all 65536 error codes, all table entries",
  "Only the handful of names that occur in the PDU samples are ever printed, and no unknown number is.",
  ["agentx/pdu_tag.go", "agentx/flags.go", "agentx/close_reason.go", "pduerror/error.go", "pduerror/error_string.go", "asn/tag.go", "asn/value.go", "oid/name.go"],
  [("constants and String methods", "agentx/pdu_tag.go, agentx/flags.go, agentx/close_reason.go, pduerror, asn"), ("Name table", "oid/name.go")],
  ["String methods", "IsKnown", "IsValueTag", "IsValidValue", "NotAllowedFlags", "oid.Name"])

p("C20", "The debug log shows the message and reports failure exactly on failure",
  "For every PDU and every byte string, the log of a debug call contains the complete hex dump of the bytes it consumed, or of the bytes it produced when encoding succeeds, and the failure notice of that call, written once, is its last message if and only if the call fails. "
  "No logged message has a formatting error, for any field values, and the console log prints every message it is given unchanged, in order, each followed by a line break.",
  ["inputs"], "all debug encode and decode calls, succeeding and failing at any field",
  "The tests give the debug functions a logger that discards everything.",
  ["agentx/pdu.go", "agentx/encoding_dbg.go", "agentx/payload_params.go", "agentx/varbind.go", "agentx/search_range.go", "logger/logger.go"],
  [("deferred '!!! Failed' message", "agentx/pdu.go"), ("hex.Dump of data", "agentx/pdu.go, agentx/encoding_dbg.go")],
  ["logger.Log passed to the *Dbg functions"])

p("C21", "OID, text, dump and name functions keep no state between calls",
  "Comparing, cloning, concatenating, parsing and printing OIDs, the text forms of values, varbinds, ranges, addresses, PDUs and protocol numbers, hex dumps and diffs, and debug logging depend on their arguments only: whatever calls came before or run at the same time in other goroutines, every call gives the result that it would give alone, without a data race, does not modify its arguments, "
  "and a result once returned is never altered by a later call or by writing to another result.",
  ["inputs", "histories", "schedules"], "all histories of calls and writes to results, and concurrent calls with shared arguments, of all package-level functions except the codec (C09) and trees (C13-C16)",
  "The tests make single calls; hidden caches, shared buffers and lazily filled tables show only through particular histories or interleavings.",
  ["oid/oid.go", "hex/dump.go", "asn/value.go", "asn/varbind.go", "ipa/ip_address.go", "agentx/flags.go", "agentx/search_range.go", "internal/struct.go", "internal/indent.go", "pduerror/error_string.go"],
  [("Clone, Cat, Parse, String, Compare", "oid/oid.go"), ("DumpSub, DumpDiff", "hex/dump.go"), ("table", "asn/value.go"), ("maxprefix", "internal/indent.go"), ("StructString", "internal/struct.go")],
  ["exported functions of oid, hex, asn, ipa, agentx (String, Fprint), pduerror"])

p("C22", "Struct texts and line diffs show everything",
  "For every struct whose fields are exported and hold integers, booleans, strings, OIDs, structs, slices, pointers or interfaces, at any nesting and indentation depth, its text has for each field in order one line 'Name: value' indented by 4 blanks per level (8 levels at most), with nested structs and list elements on lines of their own one level deeper; a value with a method Fprint(*strings.Builder) or else String() string prints as that method says, nil as <nil>, an empty list as <empty>, any other kind as unsupported, and what is no struct as such. The line diff of two texts is empty exactly when they are equal and otherwise shows every line of both in order: equal ones once behind a blank, different ones as a marked pair, a missing line counting as empty. The diff of two structs is the diff of their texts.",
  ["inputs"], "all struct types and values of the supported kinds, all depths, all pairs of texts",
  "The tests use the diff only to report that two PDUs differ, which never happens when they pass; a diff that is wrongly empty would hide every failure of the codec tests.",
  ["internal/struct.go", "internal/indent.go", "generics/generics.go"],
  [["StructString, fprintStruct, fprintValue, tryFprintOrString", "internal/struct.go"], ["StructsDiff, StringsLinesDiff", "internal/struct.go"], ["Prefix", "internal/indent.go"]],
  ["internal.StructString", "internal.StructsDiff", "internal.StringsLinesDiff"])

p("C23", "The k-th next leaf and the pruning removal of the OID tree are exact",
  "For every OID tree, bounds, include flag and repetition count k from 1 to 32767, the next-node search inside package oid returns the k-th leaf in OID order among the leaves that lie in the range, or nothing if there are fewer; for k below 1 it returns nothing. "
  "Removing a node with pruning removes its subtree and exactly those ancestors that are thereby left without any node below them; without pruning it removes the subtree alone; every other node keeps its place, its data and its identity, and the removal of an OID that is not in the tree, or of the root, reports false and changes nothing.",
  ["inputs", "histories"], "all trees, bounds, counts and removals",
  "Nothing in the tests has a repetition count or prunes; the exported calls always ask for the first leaf and never prune.",
  ["oid/node.go", "oid/tree.go"],
  [("getNextNode, repeatition", "oid/node.go"), ("removeNode, prune", "oid/node.go")],
  ["getNextNode", "removeNode", "oid.Node.Children"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")

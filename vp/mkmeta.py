"""Generates properties.jsonl and MANIFEST.json from the property table below."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = ("abstract interpretation of MIR (intervals, linear facts, symbolic bit-stream terms, loop fixpoints) with a path-wise "
      "refinement check against a layout specification")
TR = ("Sound for every input on the paths analysed, relative to the library models in vp/models.py (bit reader, encodings, core/alloc); "
      "a construct the interpreter does not understand is listed as undecided in the evidence, never reported as a violation.")

P = []


def prop(id, title, statement, over, text, why, files, mech, technique=AI, note=TR, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique,
                  note=note, observe=list(observe)))


ATTR = ["src/network/attributes.rs", "src/bits.rs", "src/network/models.rs"]

CORE = ["src/core_parser.rs", "src/parsing_utils.rs"]
TRC = ("Sound for every input on the paths analysed, relative to the library models in vp/models.py (encodings, core/alloc), with a nested "
       "property dictionary treated as one more dictionary of the same grammar; a construct the interpreter does not understand is listed as "
       "undecided in the evidence, never reported as a violation.")

ALL = ["src/parser.rs", "src/header.rs", "src/core_parser.rs", "src/parsing_utils.rs", "src/crc.rs", "src/bits.rs", "src/errors.rs", "src/models.rs",
       "src/network/mod.rs", "src/network/frame_decoder.rs", "src/network/attributes.rs", "src/network/models.rs", "src/network/object_index.rs"]
PAN = ("A panic is reported only when it is certain: the analysis gives input values that reach it. A panic whose reachability it cannot settle is "
       "listed as undecided in the evidence (two index expressions of network::parse on the current tree). Relative to the library models in "
       "vp/models.py, and to memory and stack being large enough.")

prop("C01", "Parsing never panics, whatever the bytes",
     "Parsing any sequence of bytes, under any policies, ends with a value or an error and never with a panic: no index or slice out of range, no "
     "arithmetic overflow (overflow checks on), no unwrap of something absent, no failed assertion. The same holds for displaying any error "
     "that parsing returns, for its source, and for the accessors of header properties.",
     ["inputs"], "every byte string, every policy, every error value",
     "the panicking input of a missing check is one in 2^32 or needs a particular relation between distant fields; fuzzing samples, tests do less",
     ALL, [("every assertion, index, slice, unwrap and arithmetic operation", "src/")],
     technique="abstract interpretation of MIR (intervals, linear facts, symbolic bit-stream terms, loop fixpoints): feasibility of every "
               "panic edge, with a concrete witness of the input values before it is reported", note=PAN)
prop("C02", "Parsing always ends, and nesting cannot exhaust the stack",
     "Parsing any sequence of bytes ends: every loop consumes input, advances over a finite collection, or counts to a limit that it does not move; no "
     "loop can repeat an iteration that changes nothing. Property dictionaries nested in arrays and structs are followed to a fixed depth (64) "
     "only; deeper nesting is an error, not a stack overflow. The walk up the ancestors of a class ends.",
     ["inputs"], "every byte string, every nesting of properties, every object list",
     "the input that makes a loop stand still or a recursion run away is constructed, not recorded; a test that meets it hangs instead of failing",
     ALL, [("every loop", "src/"), ("parse_nested_rdict", "src/header.rs"), ("AncestorIterator", "src/network/object_index.rs")],
     technique="abstract interpretation of MIR: a ranking argument for every loop (induction records), a measure limited on every recursive call, "
               "acyclicity of the class table",
     note="A loop without a recognised measure is listed as undecided unless an iteration provably changes nothing its own path depends on; a recursive call "
          "is reported when no argument limits it to 1000 levels. Relative to the library models in vp/models.py; library iterators are taken to end.")
prop("C03", "No memory is reserved for unchecked counts",
     "A count read from the input never decides by itself how much memory is reserved: lists of more than 25,000 elements (or a negative number) are "
     "rejected as ListTooLarge before anything is reserved for them, the list of frames is reserved only for at most as many frames as there are bytes of network "
     "data, and every other reservation is bounded by a constant or by the length of something already read.",
     ["inputs"], "every byte string and every declared count",
     "a reservation for a forged count succeeds lazily, or aborts the process, only for counts that recorded replays never have",
     ALL, [("CoreParser::repeat", "src/core_parser.rs"), ("decode_frames", "src/network/frame_decoder.rs"), ("every with_capacity, reserve and resize", "src/")],
     technique="abstract interpretation of MIR: bounds of the size at every allocation site, through the calls that pass it",
     note="Reservations by collect and push follow the number of elements produced and are not counted. A size that cannot be bounded nor shown to be "
          "unbounded is listed as undecided, never reported. Relative to the library models in vp/models.py.")
prop("C04", "Truncated data is an error, never a value",
     "Whenever the header, the body, or the network data ends before the last bit of the item being decoded (a header property, a list, a "
     "string, a replicated attribute), decoding that item returns an error. It never yields a value in which a missing part is replaced by "
     "a default, by absence, or by leftover data.",
     ["inputs"], "every byte string and bit string, every item, every protocol version, every position at which the data may end",
     "the tests decode a few hundred complete replays; the cut positions inside each of 45 attribute encodings and of every header and body "
     "field are never sampled",
     ATTR + CORE + ["src/header.rs", "src/parser.rs"],
     [("attribute decoders and bit reader", "src/network/attributes.rs"), ("byte reader", "src/core_parser.rs")])
prop("C06", "Checksum policies: mismatch, corruption and trust",
     "With the Always policy a section whose stored checksum differs from the computed one is rejected as a CRC mismatch carrying the stored "
     "and the computed value, whether or not it parses. With OnError the checksum matters only if the section fails to parse: then a mismatch "
     "is reported as a corrupt replay naming the section (\"header\", \"body\") and wrapping the cause, and a match yields the cause itself. With "
     "Never the checksum is ignored. The checksum covers exactly the declared bytes of its section. OnError is the default, and the last setting wins.",
     ["inputs"], "every replay, every combination of the policies, every order of builder calls",
     "tests try a couple of corrupt files; the combinations of policy, section, parse outcome and checksum outcome are not enumerated",
     ["src/parser.rs", "src/crc.rs"], [("crc_section", "src/parser.rs"), ("ParserBuilder", "src/parser.rs")], note=TRC)
prop("C07", "The checksum is the documented CRC-32 for data of every length",
     "For data of every length and content, crc::calc_crc returns the 32-bit cyclic redundancy check with polynomial 0x04c11db7, initial value 0x10340dfe, most "
     "significant bit first (input and output not reflected) and a final exclusive or with 0xffffffff, over all bytes in order.",
     ["inputs"], "every byte sequence of every length",
     "the tests checksum a few replays and short samples; a wrong table entry, or a wrong remainder for one length modulo the block size, shows only on other data",
     ["src/crc.rs"], [("calc_crc", "src/crc.rs")],
     technique="abstract interpretation of MIR to symbolic loop steps, each decided as an affine map over GF(2) against the step of the reference division "
               "(linear algebra over bits, induction over iterations)",
     note="Exact for every length and content when the accumulator's step is built from linear operations and linear tables; other constructions are undecided. "
          "The constant tables are read from the compiler's evaluated constants.")
prop("C08", "Network data policies: required, skipped, best effort",
     "With must_parse_network_data a failure to decode the network data fails the parse with that error; with ignore_network_data_on_error (the "
     "default) such a failure leaves network_frames absent and everything else intact; with never_parse_network_data the network data is "
     "not decoded and network_frames is absent. When decoding succeeds its frames are returned. The policy never changes any other field, and "
     "the last setting wins.",
     ["inputs"], "every replay, every combination of the policies, every order of builder calls",
     "tests parse intact replays mostly under one policy; failures of network decoding under each policy are hardly sampled",
     ["src/parser.rs"], [("Parser::parse", "src/parser.rs"), ("ParserBuilder", "src/parser.rs")], note=TRC)
prop("C09", "The body is decoded field by field to its documented layout",
     "The replay body is, in order: levels, keyframes (time, frame, position), a sized block of network data, debug info, tick marks, packages, "
     "objects, names, class indices and the net cache with its properties. Each list holds exactly the declared number of elements in order, each "
     "field is read from exactly its bytes as little-endian with its documented width, and a declared size is consumed exactly. Nothing well formed "
     "is rejected and nothing malformed accepted.",
     ["inputs"], "every byte string and every declared count",
     "recorded replays leave several of the lists empty or one element long, so field order and counts inside them are not exercised",
     CORE + ["src/parser.rs"], [("Parser::parse_body", "src/parser.rs")], note=TRC)
prop("C10", "Header versions and properties are decoded to their grammar",
     "The header is major and minor version, a net version exactly when major > 865 and minor > 17, the game type, and a property dictionary ended "
     "by \"None\". Each property is name, type and eight ignored bytes, then a value whose encoding follows the type: Bool, Byte, Array, Float, "
     "Int, QWord, Name, Str or Struct; version 0.0 replays use their older Bool and Byte encodings. Properties keep their order and duplicates; an unknown "
     "type is an error that names it; arrays and structs nest dictionaries of the same grammar.",
     ["inputs"], "every byte string, every version triple, every sequence and nesting of properties",
     "tests parse property lists of recorded games; orders, duplicates, unusual types and the old encodings combine beyond what is recorded",
     CORE + ["src/header.rs"], [("parse_header, parse_rdict", "src/header.rs")], note=TRC)
prop("C11", "Length-prefixed strings are decoded by sign and exact length",
     "A text is a signed 32-bit length and its bytes. Length 0 is the empty text; a positive length counts Windows-1252 bytes, a negative one UTF-16 "
     "code units, and the terminator included in the length is dropped; beyond 10000 in magnitude the text is rejected as too large. Names "
     "(keys, types, class names) are a length and UTF-8 bytes whose terminator is dropped; bytes that are not UTF-8 are an error. Exactly "
     "the declared bytes are consumed, and a negative name length or missing bytes are an error.",
     ["inputs"], "every length and every byte content",
     "tests decode a few strings; extreme and negative lengths, and lengths of 0 and 1, are only partly sampled",
     CORE, [("parse_text, parse_str", "src/core_parser.rs"), ("decode_str, decode_utf16, decode_windows1252", "src/parsing_utils.rs")], note=TRC)
prop("C23", "Errors name the section, the byte offset and the cause",
     "When the header or body cannot be decoded, the error names the section being read (e.g. \"header properties\", \"keyframes\", \"class index\"), the "
     "offset in bytes from the start of the replay reached when it failed, and the cause beneath it: missing bytes (how many were needed and how many "
     "were left), text too large (its length), list too large (its count), unexpected property (its type), or bytes that are not UTF-8.",
     ["inputs"], "every malformed or truncated header and body",
     "tests check the message of a few fuzzed inputs; most failing reads and their offsets are never looked at",
     CORE + ["src/parser.rs", "src/header.rs", "src/errors.rs"], [("map_err sites", "src/parser.rs"), ("map_err sites", "src/header.rs")], note=TRC)
prop("C12", "Scalar, text and record attributes decode to their documented layout",
     "Every attribute that is a flag, integer, float, enum, text or fixed record (everything except positions, rotations, identities and "
     "loadouts) is decoded from exactly the bits of its layout: each field has its documented width, order and signedness, optional "
     "fields are present exactly when their flag or protocol version says so, and decoding stops at the first bit after the encoding. "
     "Text is length-prefixed, negative lengths are UTF-16, positive ones Windows-1252, the terminator is dropped.",
     ["inputs"], "every bit string and every protocol version, for each of these attribute types",
     "recorded replays contain a narrow set of field values and versions; a wrong width or gate for a rare value goes unnoticed",
     ATTR, [("AttributeDecoder::decode and its helpers", "src/network/attributes.rs")])
prop("C13", "Positions, rotations and rigid bodies decode to their documented layout",
     "Vectors use a size field limited to 20 (to 22 from network version 7), components of size+2 bits biased by 2^(size+1), and a "
     "scale of 1/100; rotations are up to three optional signed bytes; rigid bodies carry a smallest-three quaternion from network "
     "version 7 and three 16-bit components before, with velocities exactly when awake. Every attribute made of these decodes its fields in "
     "order, from exactly these bits, with exactly this arithmetic.",
     ["inputs"], "every bit string and every network version, for each spatial attribute type",
     "the boundary values of the size field and each of the four quaternion layouts are hit by chance, if at all, in sampled replays",
     ATTR, [("Vector3f, Quaternion, Rotation decoding", "src/network/models.rs"), ("rigid body and damage decoders", "src/network/attributes.rs")])
prop("C14", "Player identities decode to their documented layout per platform",
     "A player identity is a platform byte, the platform's own identifier layout (split-screen, Steam, PlayStation, Xbox, QQ, Switch, PsyNet, Epic, "
     "with the network-version dependent lengths), and a local id; an unknown platform is an error. A party leader of platform 0 "
     "is absent and consumes nothing more; a reservation carries number, identity, an optional name and its flags, each from exactly its bits.",
     ["inputs"], "every bit string, platform byte and network version",
     "the platforms and versions present in sampled replays are few; the lengths of opaque fields are not visible in their results",
     ATTR, [("unique id, party leader and reservation decoders", "src/network/attributes.rs")])
prop("C15", "Loadouts and online products decode to their documented layout",
     "A loadout is a version byte and the item ids that exist from versions 11, 16, 17, 19 and 22 on; an online loadout is a counted list of counted "
     "lists of products. A product's value is chosen by the object its id names (colour, paint, title, special edition, team edition, else "
     "absent) and by the protocol version, and every list holds exactly the declared number of elements in order.",
     ["inputs"], "every bit string, every loadout version and list length, every object table and protocol version",
     "list lengths and product kinds in sampled replays cover a small part of the space, and the induction over list length cannot be sampled",
     ATTR, [("loadout and product decoders", "src/network/attributes.rs")])

NET = ["src/network/frame_decoder.rs", "src/network/models.rs"]
TRN = ("Sound for every input on the paths analysed, relative to the library models in vp/models.py (bit reader, core/alloc), with attribute decoding "
       "an uninterpreted function of attribute kind and position and the actor table an abstract map; a construct the interpreter does not "
       "understand is listed as undecided in the evidence, never reported as a violation.")
prop("C20", "A frame is decoded to its grammar and follows the actor lifecycle",
     "A frame is time and delta (each 0 or at least 1e-10, both 0 ends the data), then actors until a 0 bit: an id limited by the channel count and either a "
     "deletion, a new actor, or updates. A new actor carries its name id exactly from version 868.20.0 (868.14.0 unless a LAN replay), its object and "
     "the initial location and rotation its object calls for. Updates go to the object its id was last opened with, and each is the "
     "attribute that object declares for the stream id read, limited by that object's own largest id; an id never opened, and attributes "
     "or objects that do not exist, are errors. New, deleted and updated actors are returned in stream order.",
     ["inputs", "histories"], "every bit string, every version, every history of opened, updated and closed actors, every attribute table",
     "a few hundred recorded games never close and reopen actors, reuse ids, or refer to missing actors in all the ways a stream can",
     NET, [("FrameDecoder::decode_frame, parse_new_actor", "src/network/frame_decoder.rs"), ("Trajectory::from_spawn", "src/network/models.rs")],
     note=TRN)
prop("C21", "The frames returned are exactly those of the network data, in order",
     "Frames are decoded one after another from the first bit of the network data until the declared number of frames is reached, the data is used "
     "up, or a frame marks the end; exactly the frames decoded are returned, in order, and each continues from the bit position and the actors "
     "the previous one left. What follows the last frame is ignored. A frame that fails to decode fails the whole with its error. No frame "
     "contains elements of another one.",
     ["inputs", "histories"], "every network data block and every declared frame count",
     "recorded replays end regularly; ends by count, by data and by marker, and failures in later frames, are rarely sampled",
     NET, [("FrameDecoder::decode_frames", "src/network/frame_decoder.rs")], note=TRN)
prop("C22", "Frame errors carry the exact cause and what was decoded so far",
     "When network data cannot be decoded, the error is the one of the failing frame: time or delta out of range with its value, not enough data with "
     "the item that was being read, object id out of range, missing cache, missing actor or missing attribute with the actor, object and "
     "stream ids involved, or the attribute error with the same ids. Its context holds the frames decoded before, the new and updated actors of "
     "the failing frame so far, the actors then known (each under its own id with its object), the replay's object names and its attribute tables.",
     ["inputs"], "every malformed or truncated network data block",
     "tests look at a handful of fuzzed failures; most failing reads and the context attached to them are never examined",
     NET + ["src/errors.rs"], [("FrameError sites", "src/network/frame_decoder.rs"), ("FrameContext", "src/errors.rs")], note=TRN)

TRP = ("Sound for every header, footer and network block on the paths analysed, relative to the library models in vp/models.py (hash maps as finite "
       "maps, bit_width as 64 minus the leading zeros); the class and attribute tables are compared with a reference copy taken from this tree "
       "(vp/tables.json: entries may be added, none may change). A construct the interpreter does not understand is listed as undecided, never "
       "reported as a violation.")
PAR = ["src/network/mod.rs", "src/network/object_index.rs", "src/data.rs", "src/models.rs"]

prop("C16", "The frame decoder is set up from the header as the format prescribes",
     "The network data is decoded with: the version triple (major, minor, net version, or 0 when absent); the channel limit from the header property "
     "(the first so named) MaxChannels, 1023 when absent or not an integer, and channel ids of as many bits as are needed below the top bit of the limit; the LAN flag exactly "
     "when MatchType is the name or string \"Lan\"; the newer game layout exactly when BuildVersion is a text at or after \"221120.42953.406184\"; and as many "
     "frames as the integer NumFrames. Without NumFrames the frames are empty; a number of frames above the number of bytes of network data is the error "
     "TooManyFrames with that number. The frames are those decoded, or the decoder's error. Product values are recognised by the ids of the five "
     "object names TAGame.ProductAttribute_UserColor_TA, _Painted_TA, _TitleID_TA, _SpecialEdition_TA and _TeamEdition_TA.",
     ["inputs"], "every header, every combination of present, absent and oddly typed properties, every version",
     "recorded replays have ordinary headers; absent, oddly typed and extreme properties hardly occur in them",
     PAR + ["src/network/attributes.rs"], [("network::parse", "src/network/mod.rs"), ("Header accessors", "src/models.rs"),
     ("ProductValueDecoder::create", "src/network/attributes.rs")], note=TRP)
prop("C17", "Every known replicated property is decoded as its own kind",
     "A property named in a class net cache is decoded with the attribute kind registered for the object name at the property's object index; names that "
     "are not registered are kept as not implemented, so that a frame that uses them fails with the unimplemented error. None of the registered names "
     "changes its kind. A cached property whose object index is outside of the object list is the error StreamTooLargeIndex with its stream id and "
     "object index.",
     ["inputs"], "every object list and class net cache, each of the 299 registered names",
     "the replays of the tests use a part of the registered names, and one wrong kind shifts every later bit of a frame",
     PAR, [("ATTRIBUTES", "src/data.rs"), ("lookup in network::parse", "src/network/mod.rs")], note=TRP)
prop("C18", "Class hierarchy and initial actor state are those of the game's classes",
     "The ancestors of an object name are found by removing the map name and the instance number from objects placed in maps and following the class table; of "
     "these, those in the object list are visited in order from the object itself, each at the index of its first occurrence. A new actor of an "
     "object starts with the initial state (none, location, or location and rotation) of the nearest class of its hierarchy that has one, and with none "
     "otherwise. None of the registered classes changes its parent or its initial state, and no class is its own ancestor.",
     ["inputs"], "every object list, with duplicates and unknown names in any order, and each of the 285 registered classes",
     "recorded replays contain a fraction of the classes, never duplicates, and mostly one order of objects",
     PAR, [("ObjectIndex, AncestorIterator", "src/network/object_index.rs"), ("normalize_object, PARENT_CLASSES, SPAWN_STATS", "src/data.rs"),
     ("spawn loop of network::parse", "src/network/mod.rs")], note=TRP)
prop("C19", "An object's replicated properties are its own and its ancestors'",
     "The properties that can be updated on an object are those of the class net caches of the object and of all its ancestors in the object list, where the "
     "entry of the more derived class wins for the same stream id; they do not depend on the order of objects or caches. Property ids are "
     "read with the limit of one more than the largest stream id among them (3 if there are none) and with one bit less than the limit has, at "
     "least zero.",
     ["inputs"], "every object list and class net cache, every order, every overlap of stream ids between classes",
     "recorded replays list classes in one order and do not repeat stream ids between a class and its ancestors",
     PAR, [("net_traversal", "src/network/mod.rs"), ("cache loops of network::parse", "src/network/mod.rs")], note=TRP)

TRT = ("Sound for every value displayed on the paths analysed, relative to the library models in vp/models.py (formatting writes its pieces in order; "
       "the forms of numbers, floats and derived types are the standard library's). The contents of the two lists of attribute names inside the text for "
       "an unknown attribute are not decided. A construct the interpreter does not understand is listed as undecided, never reported as a violation.")
TX = ("abstract interpretation of MIR (linear facts, symbolic terms, loop summaries): every path's result or written text is compared with its "
      "specification")

prop("C27", "A parse depends on nothing but the bytes and the policies",
     "Parsing, serializing and displaying read nothing but their arguments and change nothing but their result: no clock, environment, files, network, "
     "processes, threads, standard streams, addresses or random numbers, no state kept from one call for the next (no static or thread-local that "
     "changes), and no order of a randomly hashed map in a result. So parsing the same bytes with the same policies gives the same result in any order of "
     "calls, on any thread, in any process.",
     ["inputs", "histories", "schedules"], "every input, every sequence and interleaving of calls in a process, every environment",
     "tests parse each replay once per process, in one environment; hidden state shows only in particular sequences of calls or particular environments",
     ["src/lib.rs", "src/parser.rs", "src/network/mod.rs", "src/network/frame_decoder.rs", "src/crc.rs", "src/data.rs"],
     [("all functions and statics of the crate", "src/")],
     technique="effect analysis over the call graph of the compiler's MIR: every call site of every function of the crate, every static, every pointer cast, "
               "every walk over a hash map",
     note="Complete for the crate's own code (every function, also generic ones) and the parts of core that it inlines; the dependencies (bitter, encoding_rs, fnv, "
          "phf, serde) and the rest of the standard library outside of the listed operations are assumed to depend on their arguments only. A static filled "
          "once from constants is accepted or undecided, one filled from a call's data is a violation.")
prop("C28", "Replays and errors can cross threads and be owned, compared and boxed",
     "A parsed replay, its parts and every error are owned values that can be cloned, compared, shown for debugging, and sent to and shared with other "
     "threads (Send, Sync, 'static); every error is a std error that can be boxed as Box<dyn Error + Send + Sync>; a replay and its header properties and "
     "frames can be serialized, frames and their parts also deserialized into owned values; the ids can be used as keys (Copy, Eq, Ord, Hash). The crate "
     "has no unsafe code.",
     ["schedules"], "every value of the public types, every use across threads",
     "tests use these values on the thread that made them; a bound that is lost is not noticed until a user's program no longer compiles",
     ["src/lib.rs", "src/models.rs", "src/errors.rs", "src/network/models.rs", "src/network/attributes.rs"],
     [("public types", "src/models.rs"), ("error types", "src/errors.rs")],
     technique="type-level witnesses: a program that states the bounds is type-checked against the crate's current tree, one obligation per type and bound; "
               "unsafe blocks are searched in the compiler's intermediate representation",
     note="Decided by the compiler's trait solver for all values of the types. A type that no longer exists is undecided, not a violation.")
prop("C29", "A header property answers only the accessors of its own kind",
     "Of the accessors of a header property, as_array, as_bool, as_float, as_u64 and as_i32 answer exactly the value of an Array, Bool, Float, QWord and "
     "Int; as_string answers exactly the text of a Name or a Str; is_byte is true exactly for a Byte. Every other combination answers nothing.",
     ["inputs"], "every header property and every accessor",
     "the documentation examples try each accessor on its own kind and one other kind; the other combinations are never tried",
     ["src/models.rs"], [("HeaderProp accessors", "src/models.rs")], technique=TX, note=TRT)
prop("C30", "An error's text and cause tell what failed, with its own data",
     "The text of every error (ParseError, NetworkError, FrameError, AttributeError) is its fixed sentence with exactly the data of that error in order, in "
     "full and nothing left out. Its source is the error it wraps: ParseError's Utf8Error, CorruptReplay, ParseError and NetworkError, NetworkError's "
     "FrameError and FrameError's AttributeError have one, the others none. The text of a frame error ends with its context: how many frames were decoded, "
     "time and delta of the last one (zero if none), then the last attribute update of the failing frame, or else its last new actor, or else the same of the latest "
     "earlier frame that has either, with that frame's number; actor, object and property ids with their object names, \"Out of bounds\" for "
     "ids outside of the object list. A failed write is reported.",
     ["inputs"], "every error value, every context of decoded frames",
     "the tests look at the text of a handful of errors; the context depends on the frames decoded before and on which of their lists are empty",
     ["src/errors.rs", "src/network/models.rs"], [("Display and Error impls", "src/errors.rs"), ("FrameContext", "src/errors.rs")], technique=TX, note=TRT)

SD = ("abstract interpretation of the generic Serialize and Deserialize implementations (MIR): the serializer, deserializer and accesses of serde are replaced by recorders "
      "and players of calls, the value is arbitrary; every path's record is compared with what the type and the property say")
SDN = ("Complete for the paths of the implementations, derived or written by hand. Assumed: serde's implementations for standard types (numbers, strings, Option, Vec, Box, "
       "tuples), the data format itself, and that parsing an integer inverts displaying it. Implementations outside of the modelled interface (flatten, seeds, tagged "
       "representations being read) are reported as undecided.")
prop("C24", "JSON output holds every field under its name, 64-bit integers as text",
     "Whatever its value, a Replay and every public type inside of it (frames, actors, attributes, ids, key frames, tick marks, class tables, ...) is serialized in full: a struct is "
     "a map with exactly its fields, each under its own Rust name and with its own value, none left out, renamed or doubled for any value; an enum (Attribute, RemoteId, "
     "ProductValue) is tagged by the name of its variant with that variant's content; ids (ActorId, ObjectId, StreamId) are bare numbers; every field or variant that is a "
     "64-bit integer is its decimal text as a string; everything else has its own type (32-bit and smaller integers, floats and booleans are not text). Serialization does not "
     "fail on its own.",
     ["inputs"], "every value of every public type",
     "the snapshot tests serialize the values of a dozen replays; a variant, an empty list or a large id that does not occur in them is never written",
     ["src/models.rs", "src/network/models.rs", "src/network/attributes.rs", "src/serde_utils.rs"],
     [("Serialize implementations", "src/models.rs"), ("display_it", "src/serde_utils.rs")], technique=SD, note=SDN)
prop("C25", "What is serialized of the network data reads back as the same value",
     "Every public type of the decoded network data that can be deserialized (Frame, NewActor, UpdatedAttribute, Attribute and all of its parts, ids, trajectories, vectors) reads back "
     "from its own serialization as an equal value: every variant, every field, every 64-bit integer up to its extremes, in self-describing formats (fields and variants by name) "
     "as well as in positional ones (fields by order, variants by index). Floating point text, and formats that cannot hold a value (NaN in JSON), are the format's business.",
     ["inputs"], "every value of every type, both kinds of formats",
     "the round trip test covers the attributes that occur in the test replays; rare variants and extreme ids are not among them",
     ["src/network/models.rs", "src/network/attributes.rs", "src/serde_utils.rs"],
     [("Deserialize implementations", "src/network/attributes.rs"), ("parse_it", "src/serde_utils.rs")], technique=SD, note=SDN)
prop("C26", "Header properties are written in order, duplicates kept, each kind in its form",
     "In the serialized form of a replay, the header's properties, the fields of a struct property and every element of an array property are maps with every entry of the list in "
     "its order, also when keys repeat; nothing is dropped, merged or sorted, whatever the number of entries. A header property is written without the name of its variant: "
     "Array as a list of such maps, Struct as name and fields, Byte as kind and value (null if there is none), Bool as a boolean, Float as a 32-bit float, Int as a number, QWord "
     "as its decimal text, Name and Str as a string.",
     ["inputs"], "every header, any number of properties, any nesting",
     "headers of test replays have distinct keys, and few kinds and sizes of properties; a duplicate key or a long list is not among them",
     ["src/models.rs"], [("pair_vec", "src/models.rs"), ("HeaderProp::serialize", "src/models.rs")], technique=SD, note=SDN)

NA = [
]

prop("C35", "Equality, clones and id order look at every part of a value",
     "Two values of a public type (replays, header properties, frames, attributes and all of their parts, ids, errors) are equal exactly when they are the same variant and "
     "every one of their fields is equal, in full: numbers by value (floats as IEEE 754 compares them), texts by every character, lists by every element; != is the opposite "
     "of ==. A clone has the same variant and every field of the original. ActorId, ObjectId and StreamId are ordered as their numbers are (so that maps keyed by them work), "
     "and converting one to i32, or one that is not negative to usize, gives its number.",
     ["inputs"], "every pair of values of every public type",
     "the tests compare few values, nearly all of them equal ones or of plainly different kinds; that a field is ignored shows only in two values that differ in it alone",
     ["src/models.rs", "src/network/models.rs", "src/network/attributes.rs", "src/network/mod.rs", "src/errors.rs"],
     [("PartialEq, Clone, Ord and From implementations", "src/**/*.rs")],
     technique="abstract interpretation of the MIR of every PartialEq, Clone, PartialOrd, Ord and From<id> implementation, derived or written by hand, on arbitrary values; "
     "each path's answer is decided against what the path knows of every field",
     note="Complete for the paths of these functions. Assumed: equality and clones of standard types are those of their elements. Comparisons of a field by a function that is not "
     "modelled (loops of their own, bit patterns) are reported as undecided.")
prop("C36", "The crate is safe Rust: no unsafe code of its own",
     "The crate contains no unsafe code of its own: no unsafe block, unsafe function, unsafe trait implementation or foreign function, in any module and however it is produced "
     "by its own macros. So no replay, however it is crafted, can make boxcars itself read or write memory that it should not: a check that is missing or wrong ends in an "
     "error or a panic, never in undefined behaviour.",
     ["inputs"], "every function of the crate, for every input",
     "undefined behaviour need not show in a test, and no test covers every path with every length; that the compiler checks every access does not depend on inputs",
     ["src/lib.rs", "src/**/*.rs"], [("forbid(unsafe_code)", "src/lib.rs")],
     technique="visit of the whole expanded, type-checked crate (HIR): every block, function, implementation and foreign item is checked for being unsafe",
     note="Complete for the crate's source. Unsafe code that macros of other crates and the standard library's derives produce, and that of the dependencies, is assumed sound.")


def na(i, title, statement, over, text, why, files, reason):
    NA.append(dict(entry={"id": i, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                          "anchors": {"files": files, "mechanism": [], "observe_at": ["boxcars::ParserBuilder::parse"], "hook_needed": None}}, reason=reason))


na("C31", "Memory and time of a parse grow linearly with the input",
   "The total memory a parse holds at any moment and the time it takes are at most a constant times the length of the input.",
   ["inputs"], "every input, every policy", "tests parse well-formed replays of similar size; the worst input for its length is not among them",
   ["src/network/mod.rs", "src/network/frame_decoder.rs", "src/core_parser.rs"],
   "the sum over all loops and the final size of collections is a runtime quantity; single reservations (C03), recursion depth and progress of every loop (C02) are decided statically, the "
   "product of two loops over attacker-sized lists (class table times net cache) needs an amortised cost bound that no sound static argument in reach gives")
na("C32", "Throughput stays at hundreds of megabytes per second",
   "Parsing skips data it was told to skip without decoding it, and decodes the rest at a rate within a small factor of memory bandwidth.",
   ["inputs"], "every replay", "tests have no time limits", ["src/parser.rs", "src/network/frame_decoder.rs"],
   "a rate is a property of the machine and the compiler's output, not of the source; what is skipped under which policy is decided by C08")
na("C33", "Numbers survive a round trip through JSON text",
   "A float or integer of a replay written as JSON text and read back by serde_json is the same number.",
   ["inputs"], "every float and integer", "tests cover the numbers of the test replays", ["src/serde_utils.rs"],
   "decided by serde_json and its float printer and parser, which are not in this repository (and NaN has no JSON form); that this crate hands over and takes back exactly "
   "the values is decided by C24 and C25")
na("C34", "Agreement with the game and other parsers",
   "Every value decoded equals what the game recorded (and what other maintained parsers of the format report).",
   ["inputs"], "every replay the game writes", "tests compare against snapshots made by this parser", ["src/network/attributes.rs", "src/data.rs"],
   "there is no specification of the format other than this code and no second implementation in the sandbox to compare with; layouts and tables are decided relative to the reference "
   "recorded from the pinned commit (C12-C19)")


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"],
                            "hook_needed": None},
            }) + "\n")
        for p in NA:
            f.write(json.dumps(p["entry"]) + "\n")
    m = {
        "version": 1, "setup_cmd": "python3 vp/build.py",
        "checks": [{
            "property": p["id"], "quick_cmd": "python3 vp/check.py %s --tier quick" % p["id"],
            "thorough_cmd": "python3 vp/check.py %s --tier thorough" % p["id"],
            "technique": p["technique"], "level": "other", "level_note": p["note"],
        } for p in P],
        "not_applicable": [{"property": p["entry"]["id"], "reason": p["reason"]} for p in NA],
    }
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()

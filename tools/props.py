import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","No input can crash the parser",
 "For every byte sequence and every parser configuration, parsing terminates with either a replay or an error. It never panics, overflows arithmetic, exhausts the stack, reads out of bounds or loops without consuming input, and displaying the returned error is equally safe.",
 ["inputs","configurations"],"every byte sequence given to the parser, under every combination of checksum and network-data options",
 "The tests feed well-formed captures and a dozen hand-truncated files; a crash needs one particular value of a length, count, bit width or id at one particular place, out of 2^32 or more.",
 ["src/parser.rs","src/core_parser.rs","src/header.rs","src/bits.rs","src/network/mod.rs","src/network/frame_decoder.rs","src/network/attributes.rs","src/network/models.rs","src/errors.rs"],
 [("bounds-checked reads","src/core_parser.rs CoreParser::take_data/take/view_data"),("bounded bit reads returning Option","src/bits.rs"),("explicit id and range checks in frame decoding","src/network/frame_decoder.rs"),("recursion limit of header properties","src/header.rs parse_rdict")],
 ["ParserBuilder::parse","Display of ParseError / NetworkError"])
p("C02","Declared counts, lengths and nesting cannot exhaust memory or stack",
 "Storage reserved while parsing is bounded by a fixed limit plus a small multiple of the input size, whatever lengths or counts the input declares: a declared list of more than 25,000 elements, a text of more than 10,000 characters, or more frames than there are bytes of network data is rejected with an error before storage for it is reserved. Header properties nested arbitrarily deep are rejected with an error rather than exhausting the stack, while ordinary nesting is accepted.",
 ["inputs"],"every value of every length, count and size field, and every nesting of header properties",
 "Tests contain a handful of oversized counts; that every field is guarded, at the exact limit, for both signs, needs all 2^32 values of each.",
 ["src/core_parser.rs","src/header.rs","src/network/mod.rs","src/network/attributes.rs"],
 [("list limit","src/core_parser.rs CoreParser::repeat"),("text limit","src/core_parser.rs CoreParser::parse_text"),("frame limit","src/network/mod.rs parse"),("nesting limit","src/header.rs parse_rdict")],
 ["ParserBuilder::parse result","allocation requests made during parse"])
p("C03","The checksum is the documented Rocket League CRC-32",
 "For every byte sequence of any length, the checksum function returns the CRC-32 with polynomial 0x04C11DB7, most significant bit first, initial register 0x10340DFE, final complement. In particular any single corrupted byte of a section changes its checksum.",
 ["inputs"],"every byte sequence, of every length (so every remainder modulo the 16-byte block size)",
 "Tests compare a few fixed buffers; one wrong entry of eight-to-sixteen 256-word tables, or a fault at one remainder of the block loop, shows only for particular bytes at particular positions.",
 ["src/crc.rs","build.rs"],[("slice-by-16 table walk and byte-wise tail","src/crc.rs calc_crc")],["boxcars::crc::calc_crc"])
p("C04","The checksum policy decides exactly when corruption is reported",
 "With the always-check policy a parse whose header or body bytes do not match the stored checksum fails with the checksum error that carries the stored and computed values, and a match never does; the comparison covers exactly the bytes the section size declares. With the on-error policy (the default) a section that fails to parse reports corruption of that section if the checksum mismatches and the original error otherwise, and a section that parses is never rejected; with the never policy checksums have no effect at all.",
 ["inputs","configurations"],"every stored checksum value, every section content, every policy",
 "Tests pick one corrupt file per case; the claim quantifies over all stored checksums, both sections, and all combinations of policy with parse success or failure.",
 ["src/parser.rs","src/crc.rs","src/errors.rs"],[("crc_section","src/parser.rs Parser::crc_section")],["ParserBuilder::parse","ParseError::CrcMismatch / CorruptReplay"])
p("C05","Parser options affect only what they name",
 "A new parser behaves exactly as if the on-error checksum policy and the ignore-errors network policy had been chosen; each option setter selects what its name says and the last call wins, in any order. The network policy changes only whether frames are present: never leaves them absent and never fails because of network data, ignore-on-error gives the frames or absent but never an error, must-parse gives the frames or the network error, and every header, body and footer field is identical under all policies.",
 ["inputs","configurations"],"every sequence of option calls and every replay content, in particular every kind of faulty network data",
 "Tests use single options on good files; the claim is about all pairs of configurations on all inputs, including ones whose network data fails at any point.",
 ["src/parser.rs","src/lib.rs"],[("ParserBuilder setters and defaults","src/parser.rs ParserBuilder"),("network policy dispatch","src/parser.rs Parser::parse")],["ParserBuilder::parse"])
p("C06","Header fields and properties decode exactly as encoded",
 "For every well-formed header the result carries the stored sizes, checksums, versions (the network version exactly when major > 865 and minor > 17), game type, and every property in order, duplicates included, with the exact key, type and value encoded, for bool, byte, int, 64-bit, float, name, string, struct and array properties at any nesting; the property's declared size and its following four bytes never influence the result. The old all-zero-version header layout is decoded by its own rules (4-byte bools, single-string byte properties), a byte property whose type is \"None\" is consumed and omitted, and an unknown property type is an error naming it.",
 ["inputs"],"every value of every header field, every version pair, every property type, order and nesting",
 "The tests hold a fixed set of captures from known game builds, so versions near the thresholds, ignored fields with odd contents, duplicate keys or odd byte values never occur.",
 ["src/header.rs","src/core_parser.rs","src/models.rs"],[("parse_header / parse_rdict","src/header.rs"),("HeaderProp accessors","src/models.rs")],["Replay fields","HeaderProp"])
p("C07","Text decodes exactly in both encodings and at every length",
 "Length-prefixed text with a non-negative length decodes as Windows-1252 and with a negative length as UTF-16LE of that many code units, in both cases dropping the final terminator unit, with every byte or code unit mapped to its character and ill-formed surrogates to U+FFFD, and no byte-order-mark handling. Property names and network strings follow the same terminator rule, invalid UTF-8 in a property name is an error, a network string longer than 1024 bytes is an error, and the text always consumes exactly its declared bytes so that what follows is decoded from the right place.",
 ["inputs"],"every length value and every byte / code-unit content of a text field",
 "A few strings are tested; there are 2^16 code units, surrogate pairs in every arrangement and both sign conventions of the length.",
 ["src/parsing_utils.rs","src/core_parser.rs","src/network/attributes.rs"],[("decode_windows1252 / decode_utf16 / decode_str","src/parsing_utils.rs"),("parse_text / parse_str","src/core_parser.rs"),("decode_text","src/network/attributes.rs")],["Replay text fields","string attributes"])
p("C08","Body and footer sections decode exactly as encoded",
 "For every well-formed body, the levels, keyframes, network data, debug info, tick marks, packages, objects, names, class indices and network cache in the result are exactly those encoded: same count, same order, every field from its own bytes, for any mix of empty and non-empty lists. The network data block is skipped by exactly its declared size whatever it contains.",
 ["inputs"],"every value of every field and every combination of list lengths",
 "Captures exercise typical lists; field swaps, sign handling and off-by-one consumption around empty lists show only for unusual values.",
 ["src/parser.rs","src/core_parser.rs","src/models.rs"],[("parse_body, list_of","src/parser.rs, src/core_parser.rs")],["Replay fields"])
p("C09","A truncated replay is never accepted as a complete one",
 "If a replay is cut off before the last byte that parsing consumes, parsing fails with an error instead of returning fabricated or shortened content, wherever the cut falls. Network data cut inside a frame's content likewise yields a network error under must-parse and no frames under ignore-on-error.",
 ["inputs","crash_points"],"every cut position in header, body, footer and network data, for every content",
 "Tests truncate at one or two positions of a few captures; a missing check shows only when the cut falls inside one particular field.",
 ["src/core_parser.rs","src/parser.rs","src/bits.rs","src/network/frame_decoder.rs","src/network/attributes.rs"],[("bounds-checked reads","src/core_parser.rs"),("refill / end-of-data checks","src/network/models.rs, src/network/attributes.rs, src/network/frame_decoder.rs")],["ParserBuilder::parse"])
p("C10","The result is a function of the replay's own bytes",
 "Parsing the same bytes again, with other parses in between, in a buffer at another address or followed by arbitrary trailing bytes, gives the same replay. Bytes that the format ignores, and network bits after the end-of-data marker or after the declared number of frames, have no influence on the decoded frames. Neither do the parts of the body that decoding does not use: levels, keyframes, debug info, tick marks, packages, names, class indices, and the cache and parent ids of the network cache.",
 ["inputs","histories"],"every trailing content, every prior parse, every value of ignored bytes",
 "Needs pairs of runs compared for all values of bytes that are supposed not to matter; tests run each file once.",
 ["src/parser.rs","src/network/frame_decoder.rs","src/core_parser.rs"],[("parsing by consumption, no global mutable state","src/parser.rs, src/network/mod.rs")],["ParserBuilder::parse"])
p("C11","Vectors, rotations and quaternions decode exactly at any bit offset",
 "Location vectors are decoded with the size prefix bounded by 20 (22 from network version 7), bias 2^(size+1) and three components of size+2 bits; optional rotations as a presence bit and 8 signed bits per axis for yaw, pitch, roll in that order; quaternions in the largest-component form (from network version 7) or the three-16-bit form before. The value and the number of bits consumed are the same at every bit offset and however much data follows, and missing data gives no value rather than a wrong one.",
 ["inputs","configurations"],"every bit content, every start offset, every amount of remaining data, every network version",
 "The decoders have fast and slow paths selected by remaining data; tests cover a few samples at one offset each.",
 ["src/network/models.rs","src/bits.rs"],[("Vector3i/Vector3f::decode, Rotation::decode, Quaternion::decode","src/network/models.rs"),("read_bits_max_computed","src/bits.rs")],["Vector3i, Vector3f, Rotation, Quaternion decode","RigidBody, Location attributes"])
p("C12","Scalar and fixed-layout attributes decode exactly as encoded",
 "For every object that carries a boolean, byte, enum, integer, 64-bit integer, float, flagged byte, active actor or other fixed-layout attribute (camera settings, club colors, demolish, damage state, explosion, extended explosion, music stinger, pickup, new pickup, player history key, game mode, team paint, welded, title, team loadout colors, repStatTitle, impulse and the like), the decoded update has the right kind and every field holds the value at its documented bit position, for every value, bit alignment and version on either side of each version threshold. Decoding consumes exactly the attribute's bits.",
 ["inputs","configurations"],"every field value, bit alignment and version triple",
 "Captures contain typical values of some attributes in some versions; many attributes never occur in the repository's captures, and a swapped or narrowed field only shows for particular values.",
 ["src/network/attributes.rs","src/data.rs","src/network/frame_decoder.rs"],[("AttributeDecoder per-attribute functions","src/network/attributes.rs"),("attribute name to decoder table","src/data.rs ATTRIBUTES")],["NewAttribute / UpdatedAttribute in NetworkFrames"])
p("C13","Identity and string attributes decode exactly as encoded",
 "Unique ids for every platform (split-screen, Steam, PlayStation, Xbox, Switch, PsyNet, Epic and unknown systems), party leaders, reservations and string or name attributes decode to the encoded ids, names, local player numbers and flags, with the layout prescribed by the replay's versions. An unknown platform id is an error that carries it.",
 ["inputs","configurations"],"every id and text content, every platform tag, every version triple",
 "Captures contain a handful of players; id bytes, name lengths, and platform/version combinations at the thresholds are not sampled.",
 ["src/network/attributes.rs"],[("decode_unique_id*, decode_reservation, decode_party_leader, decode_text","src/network/attributes.rs")],["UniqueId, Reservation, PartyLeader, String attributes"])
p("C14","Loadouts and product attributes decode exactly as encoded",
 "Loadouts (with the fields their own version byte adds), team loadouts, online loadouts and product attributes (user color, painted, title, special edition, team edition) decode each field from its own bits in the order encoded, using the representation prescribed by the replay's version and by the product's object name. Counts of products are respected exactly, including empty lists.",
 ["inputs","configurations"],"every field value, loadout version byte, product kind, list shape and version triple",
 "Loadout versions and product representations change with each game build; tests see a few builds' values and none of the boundary version numbers.",
 ["src/network/attributes.rs"],[("decode_loadout, decode_loadouts_online, decode_team_loadout, ProductValueDecoder","src/network/attributes.rs")],["Loadout, TeamLoadout, LoadoutOnline, LoadoutsOnline attributes"])
p("C15","Rigid bodies and applied damage decode exactly as encoded",
 "Rigid body state carries the sleeping flag, position, rotation in the representation of the network version, and linear and angular velocity exactly when the body is not sleeping; applied damage, demolish and explosion records carry their actors, positions and flags. Every component comes from its own bits for every size, sign and alignment, and exactly the record's bits are consumed.",
 ["inputs","configurations"],"every field value, bit alignment, vector size and network version",
 "Components have data-dependent widths; the number of combinations of sizes, signs, alignment and sleeping flag is out of reach of sampled frames.",
 ["src/network/attributes.rs","src/network/models.rs"],[("decode_rigid_body, decode_applied_damage, decode_demolish*","src/network/attributes.rs")],["RigidBody, AppliedDamage, Demolish*, Explosion attributes"])
p("C16","Frames are decoded in order and delimited exactly",
 "The decoded frames are exactly those encoded, in order, each with its own time, delta, new, deleted and updated actors in encoded order, at most as many as the header declares, and ending at the first frame whose time and delta are both zero. Actor ids are read with the width given by the declared number of channels, a frame whose time or delta is negative or a positive denormal-small value (below 1e-10) is an error, and a replay that declares no frame count or zero frames has no frames.",
 ["inputs","histories"],"every sequence of frames and actor records within the bound, every time and delta value, every declared channel and frame count",
 "Float edge values, channel counts around powers of two and marker placement are single points in huge domains; captures have one fixed channel count.",
 ["src/network/frame_decoder.rs","src/network/mod.rs","src/bits.rs"],[("decode_frames / decode_frame","src/network/frame_decoder.rs"),("channel bit width","src/network/mod.rs"),("bounded reads","src/bits.rs read_bits_max_computed")],["NetworkFrames"])
p("C17","Actor updates resolve against the actor's current object",
 "An attribute update is decoded with the attributes of the object that most recently spawned on that actor id, also after deletion and reuse of the id; its object and stream id are reported. An update to an actor that was never spawned (or whose id of 200 or more was deleted), an attribute id the object does not have, an attribute with no known decoder, and an object id outside the object list are each reported as the corresponding error carrying the offending ids and the state of decoding (frame, frames so far, actor, attribute).",
 ["inputs","histories"],"every sequence of spawn, update and delete records within the bound, every actor, object and stream id",
 "Needs histories that reuse or misuse ids; real captures are always consistent, and there are only a few broken-file tests.",
 ["src/network/frame_decoder.rs","src/network/models.rs","src/errors.rs"],[("actor table","src/network/frame_decoder.rs"),("error construction with context","src/network/frame_decoder.rs, src/errors.rs FrameContext")],["NetworkFrames","NetworkError / FrameError"],
 [("actors","actor id to object currently spawned there","src/network/frame_decoder.rs")])
p("C18","Attribute tables follow the class hierarchy",
 "The attributes available on an object are those its class declares in the replay's network cache plus all those of its ancestors in the game's class hierarchy, a nearer class's entry for a stream id overriding an ancestor's; stream ids are read with the width needed for the largest id of that object. Whether a spawned actor carries an initial location or rotation is likewise inherited from the nearest ancestor that defines it, and objects named after a map instance resolve to the class of that instance.",
 ["inputs","configurations"],"every network cache over every object list, every class of the game's hierarchy",
 "Captures contain one cache layout per game build; overrides, gaps, order of cache entries and repeated entries are not sampled.",
 ["src/network/object_index.rs","src/network/mod.rs","src/data.rs"],[("ObjectIndex / hierarchy walk","src/network/object_index.rs"),("PARENT_CLASSES, SPAWN_STATS, object_classes","src/data.rs"),("CacheInfo max_prop_id / prop_id_bits","src/network/mod.rs")],["NetworkFrames"])
p("C19","Serialization preserves every decoded value",
 "Serializing decoded frames and deserializing them again through any self-describing format gives equal frames, for every attribute kind and every value; 64-bit integers that JavaScript cannot represent appear as decimal strings. Serializing a replay emits every field, with header properties as a map in their original order and with all of their entries, and each property as its plain value.",
 ["inputs"],"every value of every serializable type",
 "A single capture is round-tripped by the tests; kinds and values that do not occur in it, and duplicate or nested header properties, are not covered.",
 ["src/serde_utils.rs","src/models.rs","src/network/attributes.rs","src/network/models.rs"],[("u64 as string","src/serde_utils.rs"),("property map serialization","src/models.rs"),("derived Serialize/Deserialize","src/network/models.rs, src/network/attributes.rs")],["serde::Serialize / Deserialize implementations"])
p("C20","Typed property accessors return exactly their own kind",
 "Each typed accessor of a header property returns the stored value when the property is of that kind (string accessors: for name and string properties) and nothing for every other kind. Conversions between id types and integers, and displaying or comparing them, preserve the numeric value.",
 ["inputs"],"every property kind and every value",
 "Tests check one value of each kind at most, and not that the other kinds are rejected.",
 ["src/models.rs","src/network/models.rs"],[("HeaderProp::as_*","src/models.rs"),("From impls of ActorId/ObjectId/StreamId","src/network/models.rs")],["HeaderProp accessors","id conversions"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))

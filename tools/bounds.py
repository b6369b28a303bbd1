"""Per property: technique note, bounds and what lies outside them.  Used by the driver (evidence)
and by tools/manifest.py (MANIFEST.json)."""
BOUNDS, OUTSIDE, NOTE = {}, {}, {}


def p(i, bounds, outside, note=""):
    BOUNDS[i], OUTSIDE[i], NOTE[i] = bounds, outside, note


p("C01",
  "arbitrary files of 0..23 (thorough 0..39) bytes; arbitrary headers of 0..13 bytes; arbitrary payloads of 0..10 bytes for each property kind; one arbitrary byte at a third of (thorough: all) positions of three template replays under four (thorough: all nine) option combinations, at every position followed by the end of the file 0/3/9 (0..11) bytes later, one arbitrary byte of every count, length and id word with either sign; arbitrary bits for each of 62 attribute forms (two lengths, one alignment) and the end of data at every byte within each form (arbitrary first byte, both an old and the newest version, every alignment for the forms with vectors, rotations or quaternions); arbitrary bits for actor records under 3 channel counts and 4 versions, for frame times; object names with an arbitrary byte; network cache numbers; texts in both encodings with arbitrary contents and every 32-bit network text length. Panics, arithmetic overflow, out-of-bounds access, stack depth above 3000 calls and more than 60 million steps are violations",
  "documents that differ from the templates in several unrelated places; longer arbitrary stretches; inputs above 2 GiB (the reader's offset is an i32); formatting of floating-point numbers in error messages for symbolic values")
p("C02",
  "every 32-bit count of each of the ten body lists, cached properties, header arrays and arrays within arrays (depth 2..4) with 0..40 bytes behind; every length of every text in header, body and network data; every section, network and property size; every frame count against 0..300 bytes of network data; every channel count, actor id, name, object and stream number; product counts; the limits exactly (25,000 elements, 10,000 characters of either encoding, 1,024 bytes of network text); nesting of arrays and structs in 8 patterns to depth 20 accepted and to 6,000 (thorough 60,000) rejected. In all of them a request or the live heap above a fixed limit (128 KiB, 4 MiB where a list is declared) plus 512 / 1024 bytes per byte of input is a violation",
  "combinations of several oversized fields other than nested arrays; the known finding below (attribute tables are copied per object)")
p("C03",
  "every content of every length 0..=112 bytes (quick) / 0..=1040 (thorough), compared with a bit-by-bit reference; one corrupted byte at every position of lengths up to 48; lengths around every power of two and up to 262,145 with one arbitrary byte near the end",
  "fully arbitrary contents beyond the bound (the word loop and remainder loop are covered many times over)")
p("C04",
  "every stored checksum value for both sections under every policy, sections of concrete contents with one corrupted byte (every position, every value); section size words around the true size; parse failures at fixed places with every stored checksum",
  "several corrupted bytes at once (C03 states what the checksum detects)")
p("C05",
  "all sequences of up to 3 (quick) option calls; three template replays whose network data has one arbitrary byte at every position, arbitrary bits behind, or cut short; every declared number of frames; the three network policies compared field by field with each other; network sections of other declared sizes",
  "more than one damaged place in the network data")
p("C06",
  "headers with symbolic sizes, checksums, versions (both sides of the network-version rule, and the all-zero layout), every property kind with symbolic payload, declared size and ignored word; lists of up to 4 properties of mixed kinds; structs and arrays of up to 4 nodes in every shape, and every property kind at the end of chains of depth 0..30 (thorough 60) in both layouts; byte properties of both forms; unknown kinds by name; lists, arrays and structs of up to 25,000 members with the symbolic member at either end; the name None and names that begin with it at every place; repeated names at two levels; game types of 0..5 bytes",
  "several symbolic members in the long lists (texts are in C07)")
p("C07",
  "texts of 0..4 units with arbitrary content in both encodings for each place that holds text; property names of 3..21 and 40 bytes with arbitrary bytes in front, in the middle or at the end; every single code unit and pair; every length word against the data available; terminators; invalid UTF-8; network texts up to and beyond 1024 bytes; texts of 20 lengths around every power of two up to 4,097 with an arbitrary unit at any position (17 positions of the longest) and a second unusual one",
  "arbitrary contents longer than the bound")
p("C08",
  "bodies with every list empty or not and 0..3 elements, all numbers symbolic, texts concrete or of symbolic bytes; network data of arbitrary contents; every list with up to 25,000 elements, the symbolic one at either end",
  "several symbolic elements in the long lists")
p("C09",
  "every cut of three template replays (all positions, nine option combinations), of the network data at every byte with true and arbitrary content; for every attribute kind arbitrary bits: a frame complete within n bytes is the same when more bytes follow; arbitrary body words; cut inside every field of every kind of header property",
  "cuts of longer documents")
p("C10",
  "template replays with arbitrary trailing bytes, arbitrary bytes that the format ignores, at 8 buffer addresses (texts in both encodings at 16), after other parses (successful and failing) of other replays; arbitrary bits behind the end-of-data marker and behind the declared number of frames; every section the frames do not depend on replaced, with arbitrary numbers, 0..9 elements and arbitrary texts of 3..5 ASCII characters, under versions with and without actor names",
  "histories of more than three parses; threads")
p("C11",
  "every component value of every size prefix; 16 (quick) / 64 (thorough) bit offsets covering all alignments and reader refill boundaries; 4 lengths of data behind; symbolic network version; every truncation inside the value",
  "offsets beyond 63 bits, data of more than 24 bytes behind the value")
p("C12",
  "one update per attribute kind with all field values symbolic, symbolic major/minor/net version (both sides of every threshold), 8 bit alignments, data ending right behind the frame or 24 bytes later",
  "several updates of the attribute in one file; texts longer than 3 characters (covered by C07/C13); the kind of each of the 299 documented attribute names is checked with all-zero contents")
p("C13",
  "unique ids of every system byte (symbolic remote id bytes, player number, symbolic versions on both sides of each threshold), party leaders, reservations (names of 0..3 symbolic characters in either encoding), private matches, string and 64-bit-or-string attributes, each at 8 bit alignments with data ending behind the frame or 24 bytes later; every unknown system byte is reported; texts of 16 lengths from 8 to 300 with one arbitrary ASCII unit, in either encoding, at ten places; an arbitrary character at each position of the build version, which ends there or goes on",
  "arbitrary contents of the longer names; several such attributes in one frame")
p("C14",
  "loadouts of every version byte, team loadouts, online loadouts of 0..2 slots with 0..2 products, each product kind by object name, all field values symbolic, symbolic replay versions on both sides of each threshold, 8 bit alignments; up to 255 slots and products per slot; product kinds whose name is not in the object list at all",
  "combinations of product kinds within long lists")
p("C15",
  "rigid bodies of every vector size with symbolic components, both rotation forms, symbolic network version, sleeping or not; applied damage, demolitions and explosions with symbolic fields at six vector sizes; 8 bit alignments; every byte truncation of a rigid body at 8 alignments; the three vectors at sizes that differ by up to two, in every rotation",
  "all 20^3 combinations of sizes")
p("C16",
  "frame sequences of up to 3 (quick) / 4 (thorough) frames with 0..2 events each out of five kinds and symbolic values; 0..3 frames with arbitrary (symbolic) times and deltas against declared counts 0..4 and 6 arbitrary bytes behind; every declared count against network data of 0..13 bytes; every declared channel count (2^32 values, 33 width classes and undeclared) with every actor id below it; spawn records for symbolic versions on both sides of each threshold, match types, trajectories, 8 alignments; many events per frame, many frames and many actors, the symbolic one first, in the middle or last; pairs and quadruples of arbitrary actor ids below 1,024; the names of the three header properties that frames depend on with one arbitrary character, in other cases and lengths, nested, and with values of other kinds; match types with an arbitrary character",
  "longer sequences in which every event is symbolic")
p("C17",
  "all sequences of 4 (quick) / 5 (thorough) spawns, deletions and updates on two actor ids on either side of the id 200 boundary with symbolic values; every object id (2^32) against lists of 1..4 objects; every actor id never spawned; every stream id of classes with gaps; every out-of-range network cache reference; the rendered context of seven error situations with actor ids on either side of the limits of the id map",
  "error contexts are rendered for fixed numbers only")
p("C18",
  "each of the 285 documented classes with all of its ancestors in the object list (both orders) and one attribute per ancestor, symbolic values and locations; all subsets of present ancestors for four hierarchies; overriding, widths for 16 largest ids at each level, split and unrelated cache entries, duplicates; 6 instance classes x 4 map prefixes x 4 suffixes",
  "object names are concrete (they are hashed); other map prefixes")
p("C19",
  "frames with one update of every attribute kind, all field values symbolic, through an independent self-describing format and back; every 64-bit value; whole replays of three templates and header properties of every kind, nested, repeated and symbolic, compared with an independently written expectation; lists of up to 1,025 elements in frames, updates, online loadouts, identifiers, headers and levels; not-a-number and infinite values",
  "text formats (the numbers' decimal forms are checked for 64-bit strings only)")
p("C20",
  "every kind of property with symbolic values for each accessor; conversions, ordering, equality and display of the id types for every 32-bit value (display: every value of one byte at each of the positions)",
  "")

BASE = ("Static: abstract interpretation of the MIR rustc produces for the current tree; every listed obligation is proved for "
        "all inputs, and an alarm needs a path of the abstract interpretation plus a valuation of its inputs that satisfies the "
        "path and breaks the obligation. Trusts: rustc's MIR, the transfer functions for the std functions used (sa/models.py), "
        "a 64-bit target. ")
AI = "abstract interpretation over MIR (relational linear + bit-slice domain, trace partitioning, loop summaries)"
I = "src/ilint/mod.rs"
D = "src/io/data/mod.rs"
X = "src/tags/standard/explicit/mod.rs"
M = "src/tags/standard/implicit/mod.rs"
T = "src/tags/mod.rs"

prop("C01", "ILInt codec: canonical encoding, exact decoding",
     "Every unsigned 64-bit value is encoded in the unique canonical ILInt form (one byte below 0xF8, otherwise a header 0xF7+n and the "
     "n-byte big-endian value minus 0xF8, with the smallest n), the announced encoded size is the number of bytes written, and decoding "
     "that encoding consumes exactly those bytes and returns the value. Every byte sequence either decodes to the value the format "
     "assigns to it, consuming exactly the length its header byte announces, or is refused: too short, invalid length, or a value "
     "beyond 64 bits. No encoder or decoder panics or reports success after a failed read or write.",
     ["inputs"], "all 2^64 values and all byte sequences up to 9 bytes, on any reader or writer",
     "The tests encode and decode a dozen sample values; the codec branches on nine length classes and mixes wrap-around and overflow "
     "checks whose boundaries samples touch only in part.",
     [I], "encode/decode dispatch on the header byte; 0xF8 offset; overflow limit 0xFFFFFFFFFFFFFF07",
     BASE + "Each of the nine length classes is analysed symbolically; contracts proved here are what other checks assume of the codec.", AI)

prop("C02", "Signed ILInt mapping is a bijection, order and length preserving",
     "A signed 64-bit value v maps to the unsigned value 2v when v is not negative and to -2v-1 otherwise, and the inverse mapping restores "
     "it, for every value in both directions. Signed encoding, decoding and sizing are exactly the unsigned ILInt ones applied to the "
     "mapped value, and fail in exactly the same cases.",
     ["inputs"], "all 2^64 signed values and all unsigned ones, all byte sequences",
     "Tests sample a few values around zero and the extremes; the mapping relies on shift, sign extension and complement identities that "
     "have to hold on every bit pattern.", [I], "sign-folding shift/complement around the unsigned codec",
     BASE + "Proved per sign/parity class as equality of linear and bit terms.", AI)

prop("C03", "Primitive readers and writers: exact width, big-endian, inverse",
     "Each primitive writer emits exactly the big-endian bytes of its value (one byte for bool and 8-bit values up to 16 bytes for raw "
     "128-bit binaries; ILInts in their canonical form; a string as its raw UTF-8 bytes) and each primitive reader consumes exactly that many "
     "bytes and returns the value they denote, so reading what was written restores it. A reader or writer reports success only if every "
     "underlying read or write succeeded, and a string is only returned if its bytes are valid UTF-8. All of the entry points for one "
     "primitive (function, trait-object method, generic method) behave the same.",
     ["inputs", "fault_sequences"], "all values, all bytes, any reader/writer, a failure at any underlying call",
     "Tests check a couple of constants per type through in-memory buffers that do not fail; width, order and error propagation on every "
     "entry point are only sampled.", [D], "free functions read_*/write_* and the value/ILInt/string traits implemented on top of them",
     BASE, AI)

prop("C04", "Announced sizes equal serialised sizes",
     "For every tag type, the value size and the total size a tag announces are exactly the number of bytes its value serialisation and its "
     "full serialisation write, for every content. The same holds for the size helper of embedded string tags.",
     ["inputs"], "all tag contents: any number of elements, any lengths, any nested tags",
     "Tests compare sizes on a few small values; the sizes are computed separately from the serialisers, per type, with length prefixes "
     "whose width depends on the content.", [X, M, T, "src/tags/payload/mod.rs"],
     "value_size()/size() versus serialize_value()/serialize() of each tag; enclosing tags write the announced size before the value",
     BASE + "Loops over elements are summarised as indexed sums; nested tags are assumed to satisfy the property (structural induction).", AI)

prop("C08", "Decoding arbitrary bytes never panics",
     "Whatever the input bytes and wherever the reader fails, no decoding entry point (value deserialisation of every tag type, the tag "
     "factories, the string-tag helpers, the deserialiser and primitive readers, the ILInt decoders, the raw tag scanner and the readers "
     "they run on) panics, overflows an integer, indexes or slices out of range, unwraps an absent value or asks for a capacity that "
     "cannot exist: malformed input is reported as an error.",
     ["inputs", "fault_sequences"], "all byte sequences, all declared sizes the library lets through, a failure at any read",
     "Tests decode a handful of well-formed values and a few truncations; hostile length fields, counts and ids reach arithmetic the samples "
     "never do.", [T, X, "src/tags/raw/mod.rs", "src/io/mod.rs"],
     "size arithmetic and index expressions behind every deserialiser",
     BASE + "Value sizes up to the 512 MiB the factory admits; caller-given sizes up to isize::MAX; file offsets up to i64::MAX. "
     "Excludes stack exhaustion by nesting (C10).", AI)

prop("C12", "Dictionaries serialise canonically",
     "serialize_value of ILDictTag and ILStrDictTag writes the number of entries followed by every entry exactly once, each as the string tag "
     "of its key and the value stored under that very key, in ascending byte order of the keys - whatever order the entries were inserted in or the hash map "
     "enumerates them, so equal dictionaries have equal encodings.",
     ["inputs", "histories"], "any number of entries, any keys and values, any enumeration order of the map",
     "Tests compare one small dictionary with its expected bytes; the order a HashMap enumerates is random and every size and key order matters.",
     [X], "the key vector, its sort and the loop over it in serialize_value of the dictionary tags",
     BASE + "HashMap is modelled as an arbitrary finite map enumerated in an arbitrary order.", AI)

prop("C13", "In-memory readers model a byte string with a cursor",
     "ByteArrayReader and VecReader behave as a byte string with a cursor that is never past its end: a read or skip of n bytes succeeds "
     "exactly when n bytes remain (or n is 0), delivers exactly those bytes and advances by n; otherwise it fails, with EndOfData when "
     "nothing remains and UnableToReadData when too little does, and neither moves the cursor nor alters the data. Partial reads deliver "
     "what remains. Repositioning beyond the end is refused, and length, offset and emptiness are reported accordingly.",
     ["inputs", "histories"], "all buffers, offsets and counts, after any sequence of operations",
     "Tests walk one buffer through one sequence of reads; the invariant and the exact boundary have to hold for any length, offset and count.",
     ["src/io/array/mod.rs"], "offset/bounds checks shared through MemoryReader and used by every in-memory decode",
     BASE + "Inductive: constructors establish the representation invariant, every method keeps it and matches the model from any state "
     "satisfying it.", AI)

prop("C14", "LimitedReader never passes its limit",
     "A LimitedReader with limit n never lets more than n bytes of its source be consumed, whichever of its operations are used: bytes "
     "consumed plus bytes reported available always equal the limit, a request for more than is available fails with UnableToReadData and "
     "consumes nothing, any other request succeeds exactly when the source serves it, and skipping to the end consumes exactly what was left.",
     ["inputs", "histories", "fault_sequences"], "all limits, requests and prior successful operations; the source may fail at any call",
     "Tests use a few limits over an in-memory source that never fails; this reader is what contains every tag value inside its declared size.",
     ["src/io/mod.rs"], "available counter decremented around delegated reads and skips", BASE, AI)

prop("C19", "In-memory writers overwrite in place, refuse without effect",
     "VecWriter, BorrowedVecWriter and ByteArrayWriter behave as a byte array with a cursor: a successful write lays the bytes over the "
     "data at the cursor (growing it only past its end, and never for a fixed array), the cursor moves by exactly the bytes written, "
     "and everything else is unchanged; a write to a read-only writer or beyond a fixed array fails and changes nothing. Reported "
     "offset, length and written count agree with that, and repositioning beyond the data is refused; as_writer is the writer itself.",
     ["inputs", "histories"], "all contents, offsets and buffers, after any sequence of operations",
     "Tests append to small buffers and overwrite once or twice; overwrite/extend boundaries depend on the relation of offset, length and "
     "buffer size.", ["src/io/array/mod.rs"], "offset arithmetic and split copy/extend in write()",
     BASE + "Inductive over operations, as for C13.", AI)

prop("C21", "std::io adapters are all-or-nothing",
     "Through every std::io adapter and every provided Reader/Writer method, success means that exactly the requested bytes were "
     "transferred, in order; a short or failed transfer is reported as an error, never as success, and nothing else makes them fail. Skipping on a seekable stream moves by "
     "exactly the count or, when it cannot, fails and leaves the position where it was; asking a stream for its size, available bytes or "
     "emptiness does not move it. as_writer is the writer itself.",
     ["inputs", "fault_sequences"], "all buffers and counts; the underlying stream may fail, transfer short or be positioned anywhere",
     "Tests use in-memory cursors, which never fail, never transfer short and are never positioned past the end.",
     ["src/io/std_io/mod.rs", "src/io/mod.rs"], "error mapping and seek arithmetic of the adapters",
     BASE + "The underlying stream is abstract: any result std's contract permits at each call.", AI)

prop("C05", "Tags round-trip",
     "For every tag type and every content (up to the 512 MiB value limit), reading back the value bytes a tag serialises succeeds, consumes "
     "exactly those bytes and restores the content: the tag that was read serialises to the same bytes and all its public accessors return "
     "the same values, whatever the receiving tag held before.",
     ["inputs"], "all tag contents, with any number of elements and nested tags; any previous state of the receiving tag",
     "Tests round-trip a few contents per type into fresh tags; loops, length prefixes, sorted keys and left-over state are only sampled.",
     [X, M, T, "src/tags/payload/mod.rs"], "serialize_value/deserialize_value pairs of each tag type",
     BASE + "Nested tags and generic payloads are assumed to round-trip (structural induction).", AI)

F = "src/tags/standard/factory/mod.rs"
S = "src/tags/serialization/mod.rs"

prop("C06", "Decoding consumes exactly the encoding and yields the announced tag",
     "Whenever decoding succeeds, exactly the bytes of the encoding have been consumed: a tag value takes exactly the value size it is told "
     "(a standard ILInt or signed ILInt tag exactly one ILInt, whatever it is told), a whole tag takes its id, its size field (absent for "
     "implicit ids, whose sizes the format fixes) and exactly the announced number of value bytes, a string tag and a byte run or string "
     "of a requested size exactly theirs, and the bytes returned are those bytes. Left-over or missing value bytes are an error. A factory "
     "returns a tag created for the id it read, filled from the announced size; deserialize_into refuses any other id than the tag's own "
     "with UnexpectedTagType, without touching the tag.",
     ["inputs", "fault_sequences"], "all byte sequences, all announced sizes and ids, any nested tags, a failure at any read",
     "Tests decode well-formed samples, where consuming exactly is easy; a stray or missing byte shows only on particular lengths, counts "
     "or ids, and shifts every following tag.", [F, X, M, S, "src/tags/util/mod.rs"],
     "LimitedReader per value plus the emptiness checks after it; id and size handling in ILStandardTagFactory",
     BASE + "Nested tags consume an unknown positive number of bytes; tag creators are assumed to create tags of the id asked for (C15).", AI)

prop("C07", "Decoding never reads past the container",
     "However hostile the bytes, decoding a tag value asks its reader for no byte beyond the announced value size (standard ILInt and "
     "signed ILInt tags: beyond the ILInt itself), also when the decoding fails and whatever nested tags, counts and lengths inside "
     "announce; decoding a whole tag asks for no byte beyond its header and announced (or implicit) size.",
     ["inputs", "fault_sequences"], "all byte sequences, announced sizes and nested tags, a failure at any read; every read request, not only successful ones",
     "Tests see only inputs whose nested sizes agree; the containment matters exactly when they do not, and a violation is invisible unless "
     "the bytes after the value are looked at.", [X, F, "src/io/mod.rs"], "LimitedReader between a container and everything decoded inside it",
     BASE + "Generic payload tags, whose payload is user code handed the reader, are excluded at the value level and contained at the factory level.", AI)

prop("C09", "Allocations made while decoding are bounded",
     "However large the sizes and counts announced in the input, no decoder allocates a byte buffer larger than 512 MiB (or than the size its "
     "caller asked for), and no collection is reserved for more elements than the value being decoded has bytes.",
     ["inputs", "fault_sequences"], "all byte sequences, counts and announced sizes, at every allocation with a computed size",
     "A test cannot announce terabytes and survive the failure it looks for; the samples announce what they contain.",
     [T, X, S], "tag_size_to_usize and the count checks in front of reserve/vec![]",
     BASE + "Growth by pushing decoded elements is bounded by the input and not counted.", AI)

prop("C10", "Decoding terminates",
     "Decoding terminates on every finite input, with a reader that fails or ends at any point: every loop in every decoder makes progress "
     "(consumes input or counts down) or leaves with an error, nested decoding consumes at least one byte per level, and the depth to "
     "which nesting is followed is bounded.",
     ["inputs", "fault_sequences"], "all byte sequences and reader failures, all loops and recursive cycles of the decoders",
     "A test cannot observe that something would not end, and samples exercise only inputs whose counts and nesting agree with their bytes.",
     [X, F, "src/tags/raw/mod.rs"], "loops over counts and over LimitedReader::empty; recursion through ILTagFactory::deserialize",
     BASE + "Loops: ranking functions over the inferred loop summary. Recursion: components of the call graph. Unbounded nesting depth is a known finding.",
     AI + "; call-graph recursion analysis")

prop("C11", "Failures are never swallowed",
     "No function of the library reports success when something it relied on failed: if a read, write, seek, flush, UTF-8 validation, "
     "nested tag, tag creator or abstract reader, writer or stream it used returned an error on the way, the result is an error too.",
     ["fault_sequences", "inputs"], "every function returning a Result, with any underlying operation failing at any call, in any loop iteration",
     "Tests inject almost no faults: in-memory readers and writers do not fail in the middle; a swallowed error is silent data loss.",
     [S, D, X, F, "src/io/mod.rs", "src/io/std_io/mod.rs"], "error conversion and ? at every call site",
     BASE + "Covers all functions and methods of the public surface whose return type is a Result; provided trait methods once, for any implementation.", AI)

W = "src/tags/raw/mod.rs"
K = "src/tags/standard/constants.rs"

prop("C15", "Standard ids, types, sizes and constructors agree",
     "The 27 standard ids (0-14, 16-25, 30, 31) each denote exactly the tag type the standard assigns: the standard engine and factory "
     "create that type for that id, reporting that id, and never one of these types for an unassigned id; every default or value constructor "
     "of a standard type makes a tag of its standard id, every constructor given an id makes a tag of that id. The value of an implicit type "
     "occupies the size the standard fixes for its id, which is also what implicit_tag_size gives (9, the maximum, for the two ILInt ids; "
     "0 for id 15). Exactly the ids up to 15 are implicit and exactly those up to 31 reserved.",
     ["inputs"], "every id, both strictness modes, every constructor with any argument",
     "Tests check ids one at a time on samples, each table against itself; the same facts are written in six places (constants, types, "
     "constructors, registry, size table, classification) that have to agree, or tags of one type are read as another.",
     [K, F, M, X, T], "constants, create_std_engine, implicit_tag_size, constructors, is_implicit_tag/is_reserved_tag",
     BASE + "Constructors of raw-backed tags are considered for explicit ids only, as documented.", AI)

prop("C16", "Tag creator registry and unknown-id policy",
     "A tag creator engine creates a tag with the creator registered last for exactly that id, passing it that id; registering or "
     "deregistering an id returns the creator it replaces or removes, and affects no other id nor the strictness. For an id without a "
     "creator it yields a raw tag of that id with empty contents if the engine is not strict and the id is not implicit, and nothing "
     "otherwise. The standard factory follows its engine, including later registrations and removals.",
     ["inputs", "histories"], "all ids, creators, strictness modes and registration histories",
     "Tests register a creator or two for sample ids; interference between ids and the policy after removal or replacement are not tried.",
     [T, F], "creators map and the strict/implicit test in create_tag",
     BASE + "Inductive: each operation from an engine with arbitrary registrations.", AI)

prop("C17", "Concrete views of tags are type and id safe",
     "The downcast and assertion helpers accept a tag exactly if its concrete type is the expected one and, where an id is given, its id is "
     "exactly that id; they then hand back the very tag they were given, and otherwise nothing, UnexpectedTagType, or the error the caller "
     "chose. Every tag type exposes itself, under its own type, to those helpers.",
     ["inputs"], "any concrete type, any id, any expectation",
     "Tests try a matching and a mismatching sample; all combinations of equal/unequal id and type have to be told apart for every helper.",
     [T, "src/tags/macros.rs", "src/tags/payload/mod.rs"], "as_any/as_mut_any and the id comparison around downcast_ref/downcast_mut", BASE, AI)

prop("C20", "The raw scanner tiles its input",
     "Whenever RawTagScanner reports a tag it has read a header and moved its reader over exactly that tag: the id is the one in the stream, "
     "the header is the id plus, for explicit ids, the size field (however it is encoded), and the value size is the announced one, the one fixed for an implicit id, "
     "or that of the ILInt itself for ids 10 and 14. The first tag starts at offset 0 and each tag starts where the previous one ended. "
     "Id 15 is refused with CorruptedData, an id other than the expected one with UnexpectedTagType (that tag is passed over: the next one starts where it ended); a tag is never reported when the reader failed, and every other tag the "
     "reader can serve and 64-bit offsets can hold is reported.",
     ["inputs", "fault_sequences", "histories"], "all byte sequences, ids, sizes and ILInt encodings (canonical or not), after any number of tags, failing readers",
     "Tests scan one sequence of well-formed tags; a misplaced boundary depends on the id class and on header encodings the samples do not have.",
     [W], "header parsing, size table per id class and offset bookkeeping in next_tag",
     BASE + "Inductive over calls.", AI)

prop("C22", "Raw tag geometry is consistent",
     "A RawTagOffset made from an id, offset, header size and value size (whose sum fits in 64 bits) reports exactly the geometry these "
     "define: sizes add up, value and next-tag offsets follow, start and end indices are the offsets, and the slice functions return exactly "
     "the bytes of the tag and of its value. Mapping into a parent's space succeeds exactly if the tag ends within the parent's value, "
     "otherwise fails with CorruptedData, and shifts the offset by the parent's value offset and nothing else.",
     ["inputs"], "all ids, offsets, sizes, buffers and parents",
     "Tests check the accessors on a few constants and one mapping; boundaries and large offsets are not.",
     [W], "offset arithmetic of RawTagOffset", BASE, AI)

prop("C23", "Decoding replaces the contents of its destination",
     "After a tag value was decoded successfully into an existing tag, everything the tag reports or serialises is determined by the bytes "
     "that were decoded: nothing of its previous contents remains, and its id is unchanged. Likewise every decoding function that fills a vector, "
     "slice or string given by its caller leaves nothing of what was in it.",
     ["inputs", "histories"], "all inputs, any previous contents of the destination",
     "Tests decode into fresh tags; leftovers appear only when a used one is decoded into again, with a shorter or emptier value.",
     [S, X, M, T], "clear/replace/resize before filling in deserialize_value and the *_into helpers", BASE, AI)

prop("C24", "Tags hold what is put into them",
     "What a constructor or setter of a tag type is given is what the matching accessors return, for every value, and a change made through "
     "mut_value is what value returns; setting one part leaves the other parts and the id alone; a constructor without a value makes a zero "
     "or empty one. A dictionary tag is a map: insert returns the previous value of that key if it had one, get finds exactly what was inserted last "
     "under the key and is not affected by insertions under other keys, and len and is_empty agree with the number of entries.",
     ["inputs", "histories"], "all values, any previous contents, any pair of keys",
     "Tests set a sample value per type and read the same part back.",
     [S, X, M], "constructors, set_*, accessors, insert/get", BASE, AI)

prop("C25", "Byte forms, equality and clones agree with serialisation",
     "to_bytes of a tag returns exactly the bytes its serialize writes. from_bytes of a factory succeeds exactly if that factory deserializes a "
     "tag from the start of the bytes and the tag ends where the bytes end, and returns that tag; left-over bytes are refused with CorruptedData, any "
     "other failure is that of deserialize. iltag_are_equal holds exactly for tags that both can be serialised, and to the same bytes. A clone is "
     "the tag the given factory (for iltag_clone a non-strict standard factory) reads from exactly the bytes of the original, and fails only if "
     "that does. limited_reader_ensure_empty succeeds exactly on an exhausted reader and otherwise fails with the error it was given.",
     ["inputs", "fault_sequences"], "all tags, factories and byte sequences, any serialisation or decoding failure",
     "Tests compare and clone a few well-formed tags; left-over bytes, failing tags and equal-looking tags of other types are not tried.",
     [T, "src/tags/util/mod.rs"], "to_bytes/from_bytes defaults, iltag_are_equal, iltag_clone*", BASE, AI)

prop("C18", "No hidden state; tags and factories can be shared between threads",
     "No operation of the library depends on or leaves behind anything but the objects it is given: there is no mutable global or "
     "thread-local state, no clock, environment, randomness, address, file, network, process or thread involved, and nothing changes through a shared "
     "reference, so the same inputs give the same results whatever was called before or runs concurrently. Every tag, tag "
     "creator and tag factory, the creator engine and the in-memory readers and writers can be sent to and shared between threads. (The order in which a hash map is "
     "iterated is not covered here; C12 covers it for serialisation.)",
     ["schedules", "histories", "inputs"], "all operations of the crate, any earlier or concurrent calls",
     "A test sees one order of calls in one thread; interference through hidden state shows only in particular histories or interleavings.",
     [T, S, "src/io/"], "Send + Sync supertraits; absence of statics, cells and outside effects in every body",
     "Static: type-level facts computed by rustc's trait selection and an effect analysis over every MIR body of the crate. Trusts: the list of std modules with outside effects; "
     "std containers without interior mutability have no shared state.", "type-level facts (auto traits) plus effect analysis over MIR")

prop("C26", "Failures carry their cause and are never made up",
     "When an operation of the library fails because a reader, writer, nested tag, tag factory or codec it used failed, the error it returns is "
     "that very error, as it is or wrapped in IOError. Text that is not UTF-8 and malformed ILInts are reported as CorruptedData (wrapped in "
     "IOError where the lower layer reports it; ValueOverflow/InvalidFormat within the ilint module). On its own account no serialiser, "
     "primitive reader or writer ever fails; the standard factory refuses only a size above 512 MiB (TagTooLarge), an id it creates no tag for "
     "(UnknownTag), in deserialize_into an id that is not the tag's (UnexpectedTagType) and value bytes the tag did not take (CorruptedData); "
     "embedded string tags only an id other than 17 (CorruptedData) and a size above 512 MiB (TagTooLarge); fixed-size values only another size, a "
     "boolean byte other than 0 and 1 and a decimal without room for its scale (CorruptedData); byte, string, integer and raw values nothing.",
     ["fault_sequences", "inputs"], "every function returning a Result, with any underlying operation failing at any call, on any input",
     "Tests check a few error kinds on a few malformed inputs; valid inputs that are refused and masked causes at a particular failing call are not sampled.",
     [F, X, D, S, T], "error conversions and refusals",
     BASE + "The std::io adapters (C21), in-memory readers and writers (C13, C14, C19) and the scanner (C20) have their own error contracts there. What the "
     "tag types with loops refuse is only checked by kind (CorruptedData, an embedded TagTooLarge, reading past the value).", AI)

prop("C27", "The wire format of every tag is the specified one",
     "A tag serialises as the ILInt of its id, for ids above 15 the ILInt of the size of its value, and its value - nothing else. The value bytes "
     "are those the format assigns to what the accessors return: integers and fixed binaries in big-endian two's complement of their width "
     "(a 128-bit binary, bytes, strings and big integers as they are), booleans as 0 or 1, ILInts and signed ILInts canonical, decimals as scale and "
     "digits, ILInt arrays and object identifiers as count and elements, tag arrays as count and tags in order, tag sequences as the tags in order, "
     "ranges as start and a two-byte count, versions as major, minor, revision and build of four bytes each, embedded strings as a string tag. "
     "After any bytes were read as a value of a type without elements, its accessors return what these bytes mean in that format; arrays, "
     "object identifiers and dictionaries are read with exactly as many elements as the count their value begins with.",
     ["inputs"], "every tag type, every content, every byte string",
     "Tests compare a few samples against constants; a layout that differs for some ids, sizes or values is data other systems cannot read, and "
     "round-trip tests cannot see a change made to both directions.",
     [X, M, T, S], "ILTag::serialize and the serialize_value/deserialize_value of every type",
     BASE + "Contents are seen through the public accessors. What array elements read back as is decided by C05 (for canonical encodings), the layout of "
     "dictionary values by C12, payloads of generic payload tags are their own business.", AI)

prop("C28", "Working with tags never panics",
     "No operation on tags panics - no failed assertion or unwrap, arithmetic overflow, index or slice that is out of range or cuts a character, "
     "oversized allocation: constructing, reading, setting, sizing, serialising, comparing, cloning and downcasting tags, the tag creators, the primitive read "
     "and write functions and the serialization helpers, for whatever the tags hold (up to 2^28 elements, and 4 GiB per text or byte sequence), whatever values "
     "they are given and whatever the readers, writers, nested tags and factories they use return (decoding: C08). Exceptions: raw and decimal tags "
     "cannot be made with an id of 0 to 15, ILDefaultTagCreator cannot create another id than its type's, a capacity asked for must fit the address space.",
     ["inputs", "fault_sequences"], "all public functions, all contents and arguments, any outcome of the operations they use",
     "Tests use short values and reliable writers; a panic that needs a long text, a non-ASCII character at a certain place or an extreme number is not sampled.",
     [X, "src/tags/standard/implicit/mod.rs", T, S, D, "src/tags/util/mod.rs"], "every body reachable from the public functions", BASE +
     "Operations of the readers, writers, scanner, offset windows and the creator engine are decided with their own contracts (C13, C14, C16, C19-C22), the ilint functions in C01 and C02.", AI)

prop("C29", "Serialization helpers write, read and forward exactly what they are given",
     "The helper traits and functions of tags::serialization, called on a Reader or Writer or on any implementation of the io::data traits, do exactly "
     "what the io::data primitive of that type does: writing a value emits its big-endian bytes (ILInts canonical, text as its UTF-8 bytes, byte arrays as they are), "
     "reading consumes exactly the bytes of the value and returns it, reading bytes into a vector or slice leaves exactly the bytes read in it (a vector gets "
     "the size asked for). Implementations that forward to another trait call it exactly once with the value they were given and return what it returned. "
     "They report success only if every underlying operation succeeded and fail only if one failed.",
     ["inputs", "fault_sequences"], "all values, all bytes, any reader, writer or implementation of the forwarded traits, a failure at any call",
     "Tests call each helper with one or two constants on reliable in-memory streams, and several forwarding implementations not at all.",
     [S, D], "every impl and provided method of the nine traits, the five free functions", BASE, AI)

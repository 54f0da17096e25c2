#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

R="brec/src/packet/reader.rs"; PR="brec/src/packet/read.rs"; PM="brec/src/packet/mod.rs"; PW="brec/src/packet/write.rs"
PH="brec/src/packet/header/"; RU="brec/src/packet/rules.rs"; PY="brec/src/payload/"; TR="brec/src/traits/read/mod.rs"
BR="brec/src/traits/read/reader.rs"; SL="brec/src/traits/write/slices.rs"; ST="brec/src/storage/"
MB="brec_macros/src/codegen/read/block.rs"; MW="brec_macros/src/codegen/write/block.rs"; MC="brec_macros/src/collector/"

p("C01","Every packet survives a write/read round trip through every API pair",
 "Any packet that may be built (0 to 255 blocks of any declared types in any order, and no payload or one payload of any declared type, the default byte and text payloads included) is read back equal to what was written, by every reading method from the output of every writing method. Each reading method consumes exactly the bytes of that packet, so packets written back to back are all read back, in order. A source may give the bytes in portions of any size and interrupt reads (ErrorKind::Interrupted) without a difference for plain, seekable and filtered reading. The zero-copy view of a block exposes the same field values as the owned block.",
 ["inputs","programs"],"all packets over a diverse set of block and payload types (every primitive, blobs, enums linked to u8, checksum-less types, long signatures), all field values including extremes, all write-method x read-method pairs",
 "The proptests sample round trips of a few block sets through one or two API pairs from in-memory cursors; the claim is over every value, block combination, write method and read method.",
 [PR,PW,PM,MB,MW,MC+"blocks/read.rs",MC+"payloads/read.rs",PY+"header/read.rs"],
 [("packet decoders","brec/src/packet/read.rs"),("generated block codecs","brec_macros/src/codegen"),("enum dispatch by signature","brec_macros/src/collector")],
 ["Packet::{read,try_read,filtered}","PacketBufReader::read","Packet::{write,write_all,write_vectored,write_vectored_all}"])

p("C02","Written bytes follow the documented wire format exactly",
 "Every writing method emits, byte for byte, the documented layout: packet header with fixed signature, little-endian sizes, payload flag and CRC32; each block as signature, little-endian fields in declaration order and CRC32 of the field bytes; payload header with signature, checksum and length, then the body. A storage file is a sequence of slots (signature, capacity of 500, packet lengths, CRC32), each followed by its packets. All writing methods of the same value emit identical bytes, the sizes and signatures the library reports equal those of the bytes it emits, and bytes laid out by an independent encoder of that format are accepted and decoded to the same value. A payload longer than the 32-bit length of its header can say is refused by every writing method, nothing else is written with a wrong length.",
 ["inputs","programs","configurations"],"all values of all declared block/payload types, all writing methods",
 "Existing tests only read back what the same code wrote, so a symmetric change of the format on both sides (order, endianness, checksum coverage, signature) is invisible to them although it makes stored data and other peers unreadable.",
 [PH+"mod.rs",PH+"write.rs",PW,MW,"brec_macros/src/entities/block/mod.rs",PY+"header/mod.rs",ST+"slot/write.rs"],
 [("header serialization","brec/src/packet/header/write.rs"),("block field serialization","brec_macros/src/codegen/write/block.rs"),("signature derivation","brec_macros/src/entities")],
 ["all write methods","size()/sig()/crc() accessors"])

p("C03","Streaming reader finds every packet in any mixed stream, however it is split",
 "Reading a byte stream with the streaming packet reader returns every intact packet in it exactly once, in order and unchanged, whatever foreign bytes lie before, between and after the packets, including look-alikes such as partial signatures and headers whose checksum is wrong. The sequence of packets, skips and errors does not depend on how the source splits the stream into reads, from one byte at a time to everything at once.",
 ["inputs","schedules"],"all concatenations of packets and foreign bytes, all partitions of the byte stream into source reads",
 "Existing litter tests use random litter (which practically never contains a signature fragment) and an in-memory source that always fills the whole buffer, so header refill at arbitrary split points and false signatures are never reached.",
 [R,PH+"mod.rs"],[("header search and refill state machine","brec/src/packet/reader.rs"),("signature search","brec/src/packet/header/mod.rs")],
 ["PacketBufReader::read"],None,
 [("recent","what was recognised so far of the packet being assembled","brec/src/packet/reader.rs"),("buffered","bytes of the packet being assembled","brec/src/packet/reader.rs")])

p("C04","Foreign bytes are handed to the ignore callback exactly once, in order",
 "While the streaming reader runs over a stream, the concatenation of everything handed to the callback for ignored data equals, in order and without duplication or omission, exactly the bytes of the stream that belong to no packet. Packet bytes are never reported as ignored, whether the packet is delivered, filtered out or found damaged.",
 ["inputs","schedules"],"all mixed streams, all partitions into source reads",
 "Tests compare only the total litter length for sources that fill the buffer in one go; content, order and split points are unobserved.",
 [R,RU],[("ignore calls at every transition of the state machine","brec/src/packet/reader.rs")],["Rule::Ignored callback"])

p("C05","Damaged data is never delivered as a packet with altered content",
 "If any bytes of a stream or store of checksummed packets are altered in place (bit flips, bursts, overwritten or zeroed ranges) or the end is cut off, every packet that any reading method still delivers equals one that was written, and delivered packets keep their relative order. An altered packet is reported as an error or treated as foreign data instead.",
 ["inputs","fault_sequences"],"all packets of checksummed types, all corruption positions in them (exhaustive over single-bit flips of sampled packets), all reading methods",
 "No existing test corrupts a single byte; checksum verification could be dropped from any read path unnoticed.",
 [MB,TR,PH+"read.rs",PR,R],[("block CRC","brec_macros/src/codegen/read/block.rs"),("payload CRC","brec/src/traits/read/mod.rs"),("header CRC","brec/src/packet/header/read.rs")],
 ["every read method"])

p("C06","Damage to some packets never loses the others; reading always terminates",
 "After in-place damage to any subset of packets in a stream (header, block or payload bytes), the streaming reader still returns every undamaged packet, in order. Every damaged packet causes at most a bounded number of error results, and for any finite stream, including one that ends in the middle of a packet or header, repeatedly calling read reaches the end-of-data result after a number of calls bounded by the stream length.",
 ["inputs","fault_sequences","schedules"],"all damage patterns over all packet positions, all truncation points, all stream splits",
 "Tests neither damage nor truncate streams; a reader that gets stuck on, or loses sync after, one bad packet passes them.",
 [R],[("error paths must consume the offending packet","brec/src/packet/reader.rs"),("resynchronisation on invalid headers","brec/src/packet/reader.rs")],["PacketBufReader::read"])

p("C07","Hostile input never panics, hangs or allocates out of proportion",
 "For every byte sequence, including forged ones whose checksums are valid but whose sizes, counts and lengths are absurd, every reading entry point (packets, blocks, payload headers, payloads, zero-copy views, streaming reader, storage reader and storage writer opening) returns a value or an error. None of them panics or aborts, every loop over results ends, and the memory requested stays proportional to the input actually supplied.",
 ["inputs"],"all byte sequences, mutated and forged packets, slots and headers with recomputed checksums",
 "Tests feed only well-formed data; integer overflow, slicing, and size-driven allocation on forged headers are never exercised.",
 [R,PR,PM,TR,ST+"slot/read.rs",ST+"reader/iters.rs",ST+"reader/mod.rs",PY+"header/sreader.rs",MB],
 [("bounds checks before slicing","brec/src/packet/reader.rs"),("size validation before allocation","brec/src/packet/read.rs")],["every reading entry point under a panic, step and allocation monitor"])

p("C08","No undefined behaviour or memory error in any codec or reader",
 "Encoding, decoding, zero-copy inspection, filtering, streaming and storage access, on well-formed and malformed data alike, never read or write out of bounds, use freed or uninitialised memory, race on memory, or otherwise execute undefined behaviour.",
 ["inputs","programs","schedules"],"all workloads of the other properties, executed under sanitizers and the Miri interpreter",
 "The generated code copies through raw pointers and extends lifetimes by transmutation; out-of-bounds copies of a few bytes can pass value assertions in a normal build.",
 [MW,MB,"brec/src/packet/reader.rs"],[("raw copies with compile-time sizes","brec_macros/src/codegen/write/block.rs"),("transmuted zero-copy views","brec_macros/src/codegen/read/block.rs")],
 ["AddressSanitizer/ThreadSanitizer/Miri reports"])

p("C09","Incremental reads: exact shortage, untouched source, success when complete",
 "A try-read of a packet, packet header, block or payload header from a source holding only a proper prefix of it reports insufficient data rather than an error or success, asks for at least one and never more than the number of bytes truly missing, and leaves the source position unchanged. After any non-success the position is unchanged, so supplying bytes and retrying eventually succeeds; on success exactly the entity's bytes have been consumed (except for the buffered payload header, documented as peeking: it consumes nothing).",
 ["inputs","histories"],"all entities, all prefix lengths (every cut point of sampled entities), seekable and buffered sources, start offsets and trailing data",
 "Tests call the try-read methods on complete data; the not-enough-data branches and position restoring are unexercised.",
 [PR,PH+"read.rs",PY+"header/read.rs",PY+"header/sreader.rs",MB,MC+"blocks/read.rs",TR],
 [("availability checks","brec/src/packet/read.rs"),("position restore","brec_macros/src/codegen/read/block.rs")],["TryReadFrom / TryReadFromBuffered results and source position"])

p("C10","Filter rules select exactly the packets their predicates accept",
 "With any set of rules installed, the streaming reader, the single-packet filtered read and the filtered storage iterators deliver exactly those packets that every installed predicate (on blocks, on payload bytes, on the whole packet) accepts, unchanged and in order, and skip the rest without affecting later packets. Each predicate is shown the true blocks, exact payload body bytes or full packet of that packet; a rule type can be installed once, a duplicate is refused, and a removed rule stops applying from the next read on. Rules outlive reloads of a growing storage.",
 ["inputs","histories"],"all packet sequences, all rule sets and predicates, all add/remove histories interleaved with reads",
 "Tests use predicates that accept nearly everything on one path; equivalence of early filtering with filtering fully parsed packets over all paths is a relational claim.",
 [RU,R,PM,ST+"reader/iters.rs",ST+"reader/mod.rs"],[("rule evaluation","brec/src/packet/rules.rs"),("skip without desynchronisation","brec/src/packet/reader.rs")],["callbacks and delivered packets"])

p("C11","Storage is a faithful append-only list of packets",
 "For every history of inserts and of closing and reopening the writer, a storage reader reports as count the number of successful inserts, and full iteration, iteration from an index, lookup by index and ranges of any start and length return exactly the inserted packets at those positions, unchanged and in order. Indices past the end yield nothing or an out-of-bounds error, never a packet, a hang or a panic. None of this depends on the portions in which the medium gives its bytes, nor on the size of the storage.",
 ["histories","inputs"],"all insert/reopen histories, especially around every 500-packet slot boundary; all (index, start, length) queries; packet sizes from empty to larger than I/O buffers",
 "Tests use a handful of histories and mostly sizes below one slot; index arithmetic at slot boundaries and seek-then-iterate across slots are not covered.",
 [ST+"writer/mod.rs",ST+"reader/mod.rs",ST+"reader/iters.rs",ST+"locator.rs",ST+"slot/mod.rs"],
 [("slot index of packet lengths","brec/src/storage/slot/mod.rs"),("free slot location","brec/src/storage/locator.rs"),("offset computation","brec/src/storage/reader")],
 ["Writer::insert","Reader::{count,iter,seek,nth,range,filtered,range_filtered}"],None,
 [("slots","per-slot packet lengths","brec/src/storage/writer/mod.rs"),("locator","slot receiving the next packet","brec/src/storage/locator.rs")])

p("C12","Reload brings a reader up to date and reports exactly what was added",
 "A storage reader opened at any moment and reloaded at any later moments sees, after each reload, exactly the packets inserted so far, the same as a freshly opened reader. Each reload returns the number of packets that became visible with it, zero when nothing was added.",
 ["histories","schedules"],"all interleavings of inserts and reloads, with arbitrary batch sizes around slot boundaries",
 "The observer test reloads after fixed batches on one file; batch sizes that fill a slot exactly, skip over several slots or start from an empty file are not enumerated.",
 [ST+"reader/mod.rs",ST+"locator.rs"],[("incremental slot reload","brec/src/storage/reader/mod.rs")],["Reader::{reload,count,iter,nth}"])

p("C13","No crash point loses or corrupts acknowledged packets",
 "If the process writing a storage dies at any point, even in the middle of a write, then every packet whose insert had returned is still in the file and recoverable unchanged by scanning it with the streaming reader, also when the medium keeps what is written in memory until it is flushed. Opening the storage afterwards either succeeds, showing exactly the acknowledged packets or those plus the complete in-flight one, or reports a damaged slot; when it succeeds, inserting may continue and loses nothing.",
 ["crash_points","histories"],"all cut points (every byte of every write issued) of insert histories including slot creation, then reopen, read and continue",
 "Tests never interrupt an insert; the order and extent of the individual writes is invisible to them.",
 [ST+"writer/mod.rs",ST+"slot/write.rs",ST+"reader/mod.rs"],[("write ordering of packet and slot index","brec/src/storage/writer/mod.rs")],["sequence of seek/write calls of the writer; files cut at each byte"])

p("C14","A failed insert changes nothing and later inserts still work",
 "If an insert fails because the underlying medium reports an error (write, seek or flush failure, short writes then failure, no space left) the error is reported, previously inserted packets stay in the file and can be recovered from it, and once the medium works again further inserts through the same writer succeed; after them the storage holds exactly the acknowledged packets, in order and without gaps, for this and later readers. An error of the medium while opening, reloading or inserting is always reported to the caller; a reader whose reload failed still delivers exactly what it knew before, and a later reload succeeds. (The refused packet may be visible to readers until the next successful insert.)",
 ["fault_sequences","histories"],"all single and repeated I/O faults at every operation of an insert, at any position in the history including slot creation",
 "Tests use media that never fail.",
 [ST+"writer/mod.rs",ST+"locator.rs",ST+"slot/mod.rs"],[("in-memory slot state committed only with the write","brec/src/storage/writer/mod.rs")],["Writer::insert results under an I/O fault injector; reader contents afterwards"])

p("C15","Damaged storage files are reported, never silently misread",
 "Any alteration of the slot metadata of a storage file (signature, capacity, packet lengths, checksum) makes opening it for reading or writing fail with an error; it is never taken for an empty or shorter storage, and the file is not modified. Damage confined to one stored packet leaves every other packet readable at its index; iteration reports an error in the place of the damaged one and still yields the others. No read of a damaged or truncated file panics or returns a packet that was not stored at that position.",
 ["inputs","fault_sequences"],"all single-bit and multi-byte alterations of slot bytes, damage of stored packets, truncation at any length",
 "No existing test damages a storage file.",
 [ST+"slot/read.rs",ST+"slot/header.rs",ST+"reader/mod.rs",ST+"reader/iters.rs",ST+"writer/mod.rs"],[("slot CRC","brec/src/storage/slot/mod.rs"),("DamagedSlot reporting","brec/src/storage/reader/mod.rs")],["Reader::new/Writer::new results, reads on damaged files"])

p("C16","At most one locked file storage is open on a file at any time",
 "Across threads and processes, two locked storages on the same path are never open at the same moment, and the lock is available again as soon as the holder is dropped or its process dies. Opening a locked file without a timeout fails immediately, and with a timeout it fails no earlier than the timeout while the file stays locked and succeeds if the file is released in time; packets inserted by successive holders all end up in the file.",
 ["schedules","crash_points"],"all interleavings of open, insert, drop and process death among several threads and processes, with and without timeouts and polling intervals",
 "Tests exercise two openers with fixed sleeps; exclusion under contention, abrupt process death and conservation of packets need many schedules.",
 [ST+"writer/locker.rs"],[("advisory lock on the side file","brec/src/storage/writer/locker.rs")],["FileStorage::new / FileStorageOptions::open outcomes, critical-section monitor"])

p("C17","Growth of an observed file is always signalled, one signal at a time",
 "After a file watched by the storage sensor grows beyond the length its owner has acknowledged, a wake-up carrying a size not larger than the file is delivered, even if the growth races with the acknowledgement of an earlier wake-up. Between a wake-up and its acknowledgement no further wake-up is delivered, and none is delivered when nothing has grown beyond the acknowledged length.",
 ["schedules","histories"],"all interleavings of appends, wake-up deliveries and acknowledgements",
 "The two sensor tests run one fixed sequence each; the race between the watcher thread and acknowledgement is schedule dependent.",
 [ST+"observer/sensor/mod.rs"],[("locked flag, processed length and re-check on acknowledgement","brec/src/storage/observer/sensor/mod.rs")],["wake channel and acknowledgements"],
 "the sensor is crate-private; exposed under cfg(brec_verif)")

p("C18","The refillable buffered reader is transparent",
 "Through any sequence of peek, consume, read and refill calls, the refillable buffered reader yields exactly the bytes of the underlying source, in order, without loss or duplication. Its count of consumed bytes always equals the number of bytes handed out, and after a refill the peeked data starts at the first unconsumed byte.",
 ["histories","schedules"],"all sequences of reader operations and all splits of the source",
 "Tests only use it over a source whose buffer already holds everything.",
 [BR],[("preload buffer in front of the inner reader","brec/src/traits/read/reader.rs")],["BufferedReader as Read/BufRead"])

p("C19","Writes through slow or interrupted sinks lose and duplicate nothing",
 "Writing a packet, block, header or payload completely (plain or vectored) into a sink that accepts arbitrary short counts and reports interruptions delivers exactly the entity's bytes once and in order, and returns an error if the sink stops accepting data or fails. A partial write that succeeds reports exactly the number of bytes the sink accepted, and in every case these are a prefix of the entity's bytes.",
 ["schedules","fault_sequences"],"all patterns of short counts, zero-length accepts, interruptions and errors of the sink",
 "Tests write into vectors and files that accept everything at once.",
 [SL,PW,"brec/src/traits/write/mod.rs",MW],[("resumption offset over slices","brec/src/traits/write/slices.rs")],["write, write_all, write_vectored, write_vectored_all against a scripted sink"])

p("C20","Payload signatures and checksums of every supported length work alike",
 "Payload types with custom signatures and custom checksums of 4, 8, 16, 32, 64 or 128 bytes, with disabled or hand-written checksums, and with hand-written encodings (owned or borrowed) can be mixed freely in one protocol, and are written, sized, recognised, verified and read back just like the default ones, alone or inside packets and storages. A payload whose stored checksum does not match, or whose signature is unknown, is refused.",
 ["configurations","inputs"],"all (signature length, checksum length, encoding style) combinations, all bodies including empty ones",
 "Tests use 4-byte signatures and checksums only.",
 [PY+"header/mod.rs",PY+"header/read.rs","brec/src/traits/props/mod.rs",MC+"payloads/props.rs"],[("variable-length payload header","brec/src/payload/header")],["payload and packet write/read methods"])

p("C21","Every admissible block declaration yields a correct codec",
 "For every block declaration the macro accepts (any number, order and mix of integer, float, bool, byte-array and u8-convertible enum fields, with or without checksum, any visibility), the generated code compiles and round-trips every value through all reading methods and the zero-copy view, its size and byte layout follow the declaration, and declarations that differ in name, field names, field types or field order get different signatures and are never confused with each other in one protocol.",
 ["programs","inputs"],"all declarations: randomly generated sets of block structs per run, plus every field type alone and in pairs",
 "Existing tests contain a fixed set of declarations; field-layout arithmetic in the code generator depends on the combination and order of types.",
 ["brec_macros/src/codegen","brec_macros/src/tokenized","brec_macros/src/entities","brec_macros/src/parsing"],[("token generation per field type","brec_macros/src/tokenized"),("offset arithmetic","brec_macros/src/codegen/read/block.rs")],["generated Block/BlockReferred types"])

p("C22","A transient source error during streaming loses nothing",
 "If the source of the streaming reader reports an error (interrupted, would block, timed out) at any moment, the error is passed to the caller, and continuing to read afterwards delivers the same packets and the same ignored bytes as if the error had not occurred.",
 ["fault_sequences","schedules"],"all positions of transient errors in all splits of all mixed streams",
 "Test sources never fail.",
 [R],[("reader state kept across failing refills","brec/src/packet/reader.rs")],["PacketBufReader::read over a scripted source"])

p("C23","The limit of 255 blocks per packet is enforced consistently",
 "A packet of up to 255 blocks is accepted by every writing and every reading method; a packet of more blocks is refused with an error by every writing method, leaving the output or storage untouched, and refused by every reading method when it is found in a stream. A refused packet in a stream does not affect the packets after it.",
 ["inputs","configurations"],"all block counts around the limit, all writing and reading methods, block types of all sizes",
 "Tests use at most a few blocks per packet.",
 [PR,R,PM,PH+"mod.rs"],[("block counting","brec/src/packet/read.rs")],["all read/write methods"])

p("C24","Readers running beside a writer see only complete packets, in order",
 "While one writer inserts packets, readers that open or reload the same storage at any moment, including between any two I/O operations of an insert, see a prefix of the insert sequence consisting only of complete, unchanged packets that contains at least every insert completed before. They never see a packet that is not fully written, and what they have seen never disappears. Opening or reloading may instead report a damaged slot while an insert is in progress.",
 ["schedules"],"all interleavings of reader open/reload/iterate with the individual I/O operations of inserts, in-process and across processes",
 "The observer test alternates writer and reader in one thread; intermediate states of an insert are never observed.",
 [ST+"writer/mod.rs",ST+"reader/mod.rs"],[("order of packet and slot writes","brec/src/storage/writer/mod.rs")],["Reader over snapshots taken between the writer's I/O calls; concurrent threads and processes on a file"])

p("C25","Every documented way to declare a protocol works",
 "A crate that declares blocks and payloads in the documented ways gets code that compiles and works: types at the place of generate!(), imported there, or told by a module path in any documented spelling (so that equal names in different modules are different types with different signatures); blocks with or without no_crc; payloads through bincode with automatic, disabled or own checksum, or with hand-written encoding; only the default payloads, only own ones (no_default_payload), both, or none; payloads_derive; with and without the optional library features. The documented types and aliases exist, every declared block and payload is written with its documented signature and layout and read back unchanged by every method, alone, in packets, through rules and in storages; disabled default payloads and undeclared signatures are refused; derives common to all payloads or blocks are available on the generated enums.",
 ["programs","configurations"],"all combinations of the documented declaration options, parameters and placements",
 "Tests and examples are a few fixed crates that use none of module paths, no_default_payload or mixtures of options.",
 ["brec_macros/src/collector","brec_macros/src/entities","brec_macros/src/codegen","brec_macros/src/parser","brec_macros/src/modificators","brec/src/lib.rs"],[("collection of declarations and generation of the enums and aliases","brec_macros/src/collector")],["generated Block, BlockReferred, Payload, Packet, reader, rule and storage types of compiled programs"])

p("C26","All reading methods give the same answer about any bytes",
 "Whatever bytes they are given, the methods that read the same thing agree. For a packet (read, seekable and buffered try_read, filtered read without rules, streaming, and every lookup and iteration of a storage that holds just these bytes as a packet): either all of them deliver the same packet and consume the same number of bytes, namely all of the packet, or none delivers one; a complete packet the others refuse is an error of the streaming reader too, and an incomplete one is delivered by none. For a block (owned reading, incremental reading, view, view turned into an owned block, with and without signature, through its type and through the generated enum), a packet header, a payload header and a payload: all read the same value, or all refuse. This holds for foreign, damaged and forged bytes too, checksums right or wrong: nobody can show one method a content that another method does not see.",
 ["inputs","configurations"],"all byte strings x all reading methods",
 "Tests compare methods only on packets written by brec itself, where every method succeeds.",
 [PR,R,PM,TR,PH+"read.rs",PY+"header/read.rs",ST+"reader/mod.rs",ST+"reader/iters.rs","brec_macros/src/codegen/read","brec_macros/src/tokenized"],[("owned and incremental packet reading","brec/src/packet/read.rs"),("streaming","brec/src/packet/reader.rs"),("owned block and view","brec_macros/src/codegen/read/block.rs")],["all reading methods on the same bytes"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))

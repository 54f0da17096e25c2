"""Texts and levels of the checks, used by check.py and mkmanifest.py."""
import os, re

LEVEL = {"C05": "fault_enumeration", "C13": "fault_enumeration", "C14": "fault_enumeration", "C15": "fault_enumeration", "C22": "fault_enumeration"}

ASSUME_ALL = [
    "64-bit little-endian Linux, the toolchains of the sandbox, debug build with overflow checks and debug assertions",
    "the fixed protocol of harness/proto/fixed.rs (and, for C21, randomly generated protocols) stands for all protocols",
    "what was not executed is not judged: inputs, splits, faults and schedules are sampled from the seed unless said to be exhaustive",
]
ASSUME = {
    "C03": ["foreign bytes never form a complete header with a valid checksum (such a header is a packet by definition)"],
    "C04": ["a packet cut by the end of the stream may or may not be counted as ignored"],
    "C05": ["alterations that leave every covering CRC32 valid are excluded (honest collisions are recognised by the reference decoder)", "packets made of checksummed types only"],
    "C06": ["checksummed types; a damaged header that is still valid claims the bytes it names"],
    "C07": ["memory limit: a fixed allowance plus a small multiple of the input; time limit: 60 s of CPU for one case"],
    "C08": ["AddressSanitizer sees heap, stack and global errors of executed code; ThreadSanitizer sees executed races; Miri executes the compact workload only", "one known finding: lifetimes of zero-copy views (known_findings.txt)"],
    "C13": ["a process crash leaves a prefix of the byte sequence of writes issued, in order (no reordering by a power failure)"],
    "C14": ["the medium reports its failures; after Err from write any prefix of the data may have reached it"],
    "C15": ["alterations are not forgeries: a slot or header re-signed with a valid checksum is outside the claim"],
    "C16": ["advisory locks of the local filesystem", "waiting is judged with margins: never earlier than the timeout, and late only by a wide margin"],
    "C17": ["wake-ups are awaited for many times the polling interval before their absence is called a loss", "the wake channel and the sensor are reached through cfg(brec_verif)"],
    "C25": ["a crate of the documented kind stands for all; code order, names and derives outside the generator's vocabulary are not seen", "constructs which the documentation does not offer (payload hooks, enum default variants, blocks from other crates) are outside the claim"],
    "C26": ["an error and a request for more data are one answer: not delivered", "bytes refused by the others with an invalid header are searched by the streaming reader, so its answer about them is not compared", "a storage whose slot names another length than the bytes have is outside the claim"],
    "C24": ["reads of the file by another process see the bytes written so far, in order of the write calls"],
}
RULE = {
    "C01": "A case writes one to four packets (0..255 blocks over all declared types, extreme values, every kind of payload) through a writing method and reads them back through every reading method, splits and interruptions included; or one block/payload/storage alone. Non-trivial: at least one block or payload; distinct by bytes and methods.",
    "C02": "A case compares the bytes of every writing method with an independent encoder (own CRC32, own layout tables), then feeds the encoder's bytes to the reading methods. One case tries payloads of u32::MAX bytes and of one byte more. Distinct by reference bytes.",
    "C03": "A case builds a stream of 0-8 packets with foreign bytes (random, partial and whole signatures, broken headers, slots, runs around the 8192-byte buffer) and reads it under 5 or more splits (all two-part splits for some); in a third of the cases packets are damaged, cut or filtered and the result sequences of all splits are compared. Non-trivial: has packets and foreign bytes; distinct by stream and split.",
    "C04": "As C03, with damaged, filtered and truncated packets; every byte handed to the ignore callback is logged and compared with the reference extraction. Non-trivial: stream has foreign bytes; distinct by stream, split and rule.",
    "C05": "A case writes packets to a stream or storage, alters it (every single bit for small streams, bursts, zeroed and overwritten ranges, cuts) and judges every delivered packet of every reading method against those written. Distinct by altered bytes.",
    "C06": "A case damages a random subset of the packets of a stream, may cut it, and reads it under four splits to the end; undamaged packets must appear in order, errors and calls are bounded. Non-trivial: something damaged; distinct by stream and split.",
    "C07": "A case makes hostile bytes (random, mutated, forged headers/slots/payloads with valid checksums and absurd sizes) and calls every reading entry point under a counting allocator, a panic guard and a CPU watchdog. Distinct by bytes.",
    "C08": "Workloads of all properties run instrumented: AddressSanitizer (all), ThreadSanitizer (concurrent ones), Miri (compact workload over every codec, view, reader and storage path). A case is one workload case; distinct by the workload's own rule. Only reports of the instrumentation decide.",
    "C09": "A case takes one entity and tries every proper prefix (seekable and buffered sources, offsets, trailing data), then lets bytes arrive as asked until success, then damaged variants. Distinct by entity bytes and kind.",
    "C10": "A case installs and removes rules during reading (stream, single filtered read, storage iterators) and compares deliveries and what each predicate was shown with a model; a storage may grow and be reloaded between. Distinct by stream and rule history.",
    "C11": "A case is a history of inserts and reopenings (memory or file), sized around slot boundaries, followed by count, iteration, seek, lookup and range queries compared with a list. One case in eight is a sparse storage of up to 2^61 bytes whose slots describe mostly absent packets: the real ones behind 32-bit offsets are looked up, iterated, continued by the writer and reloaded. Non-trivial: at least two packets; distinct by history.",
    "C12": "A case interleaves inserts (batches around slot boundaries), several readers opened at different times and their reloads; each reload's result and the content are compared with a list. One case in eight is a sparse storage that grows by up to 2^60 bytes between reloads. Non-trivial: some reload brought news; distinct by history.",
    "C13": "A case logs the writes of insert histories and cuts the file at every byte of the writes (sampled inside long ones) and after each return takes away what was not flushed, opens, scans and continues each (some files carry the rest of an older interrupted writing); some cases kill a real writer process. Distinct by history and crash point.",
    "C14": "A case fails every single operation of an insert once (every kind, short writes, full medium), and sequences of faults, then checks the file, continues with the same writer and compares; some storages carry the rest of an older interrupted writing behind their end; faults at every kind of place of opening and reloading too, and the reader must not be worse for a failed reload. Distinct by history and fault.",
    "C15": "A case alters slot bytes (all bits in some cases), packet bytes, or truncates a storage file, and judges opening, iteration, lookup by index and file integrity. Distinct by alteration.",
    "C16": "A case lets threads and processes contend for one path, with a shared witness of the holder, kills holders, and measures waiting with and without release. Distinct by observed order of holders.",
    "C17": "A case appends to (and cuts) a watched file from one thread while acknowledging wake-ups in another, with delays injected at the sensor's hook points; the event log is checked. Distinct by event log.",
    "C18": "A case runs a random sequence of peek, consume, read and refill calls over a splitting and failing source and compares with the bytes. Non-trivial: at least a refill; distinct by script.",
    "C19": "A case writes an entity through every writing method into a sink with a script of short counts, zeros, interruptions and failures; packets written again after such a sink, packets of more slices than one vectored write takes, and slice lists made by hand too. Distinct by entity and script.",
    "C20": "A case takes a payload of one of the signature/checksum/encoding styles, alone, in a packet or a storage, writes, reads with every method, then corrupts. Distinct by bytes.",
    "C21": "Fixed protocol plus randomly generated declarations compiled per run (field mixes, names, visibility, checksums); per case one declaration is round-tripped, compared with the documented layout, viewed, tried incrementally, and confronted with other declarations' bytes. Distinct by bytes.",
    "C22": "A case reads a mixed stream with transient errors at random positions (every position for some) under several splits and compares packets, ignored bytes and reported errors with the error-free expectation. Distinct by stream, plan and split.",
    "C23": "A case builds a packet of 250..300 (or fewer, or many more) blocks, tries every writing method, and feeds the bytes (own encoder) between good packets to every reading method. Distinct by packet.",
    "C25": "A case is a small crate generated from the seed which declares blocks and payloads in documented ways (module paths in every spelling, imports, nested and separate module files, checksum options, bincode or hand-written payloads, derives) and invokes generate!() with documented parameters; it is compiled against the present code and run: writes, reads, views, storages and rules are compared with its own description of the format. Twelve forms are forced, the others are mixtures. Distinct: every crate that ran and judged something.",
    "C26": "A case makes one byte string: a valid packet with a block, payload, header or order of parts changed and the checksums made right again, or hostile bytes as in C07, and asks every method that reads packets, headers, blocks (at the start, behind the header, behind the blocks) and payloads from it, and a storage holding it; the answers are compared pairwise with the first. Distinct by bytes.",
    "C24": "A case inspects the storage through fresh and reloaded readers between any two I/O operations of inserts (and inside torn writes); some run real threads on a file. Distinct by history and moment.",
}
# counters that say how many executions were judged, where one generated case holds several
UNIT = {"C01": ["write_read_pairs", "block_reads", "payload_reads"], "C03": ["reader_runs"], "C04": ["reader_runs"], "C05": ["alterations"], "C06": ["reader_runs"], "C08": ["executions_judged"], "C13": ["crash_points"], "C14": ["histories"],
        "C15": ["slot_damages_refused", "packet_damages_isolated", "truncations"], "C19": ["writes"], "C22": ["reader_runs"], "C24": ["looks_inside_inserts", "concurrent_looks"], "C25": ["blocks_read", "payloads_read", "packets_read", "refused"],
        "C26": ["packet_answers_compared", "block_answers_compared", "payload_answers_compared", "header_answers_compared", "storage_answers_compared"]}
TECH = {
    "C08": "compiler sanitizers (AddressSanitizer, ThreadSanitizer) and the Miri interpreter over the workloads of all monitors",
    "C13": "recorded write log of the real writer, replayed to every crash point; offline checker over the recovered files; killed processes",
    "C14": "I/O fault injection at every operation; monitor of results and contents",
    "C16": "multi-process stress with a shared witness; offline checker of the holder log",
    "C17": "event-log monitor of the hooked sensor under injected delays",
    "C25": "generated programs compiled against the code under test; self-judging runs compared with an independent description of the format",
    "C26": "differential monitor: the answers of all reading methods about the same hostile bytes, compared online",
    "C24": "snapshots between the writer's I/O calls judged by an online monitor; threads on a real file",
}
DEFAULT_TECH = "runtime monitor: reference model compared online with the real code under generated hostile workloads"

def known(v):
    out = []
    for l in open(os.path.join(v, "known_findings.txt")):
        m = re.match(r"known: property=(\w+) id=(\S+) (.*)", l)
        if m: out.append({"property": m[1], "id": m[2], "what": m[3].strip()})
    return out

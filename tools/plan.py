"""What each property's check runs. `scale` multiplies the case counts written in the harness."""
def native(q=1.0, t=1.0, **k):
    return dict(scale=dict(quick=q, thorough=t), **k)
TECH = "runtime monitoring: "
PLAN = {}
def P(id, technique, rule, note, stages, assumptions=()):
    PLAN[id] = dict(technique=TECH + technique, rule=rule, note=note, stages=stages, assumptions=list(assumptions))

P("C01", "round-trip monitor over generated messages, all writers and readers cross-checked online",
  "messages generated from per-part grammars (every byte value in every legal position, borrowed/owned/shared provenance); non-trivial = a message whose written form was compared with the reference writer, re-parsed and re-written; counted distinct by wire form",
  "Observes real writers and parsers on generated messages; any byte dropped, changed or reordered on an executed case is reported. Trusts the reference writer (about 40 lines) and the accessors used to read messages back.",
  dict(native=native(40, 80)))
P("C02", "panic/hang/allocation watchdog over hostile inputs to every parser",
  "hostile lines (mutated valid ones, separator soups, raw noise, all short strings over the protocol alphabet, maximum-length repetitions) fed to every parser, every result fully used; non-trivial = an input on which all parsers ran; distinct by input bytes",
  "A panic, arithmetic overflow, CPU budget overrun or out-of-proportion allocation in an executed case is reported. Debug assertions and overflow checks are on.",
  dict(native=native(20, 40)))
P("C03", "online comparison of every parse with an independent reference parser",
  "grammar-built, mutated and exhaustively enumerated short lines; non-trivial = a line on which the reference parser gave a definite verdict that was compared field by field; distinct by input bytes",
  "The reference parser (tools in harness/src/refm.rs) is written from the IRCv3 documents; disagreement on an executed line is reported. Lines the documents leave open (non-space whitespace before a component) are not judged.",
  dict(native=native(40, 60)))
P("C04", "stream reader/codec monitor: messages in vs messages out under every chunking, fault and end-of-stream point",
  "byte streams of messages, junk and overlong lines cut into adversarial chunks (single bytes, splits inside CRLF, WouldBlock/Interrupted between chunks, EOF anywhere) and given to every synchronous, asynchronous and framed reader; non-trivial = a stream whose message sequence was compared with the reference framing; distinct by stream bytes and cut points",
  "Compares the observed sequence of messages and errors with an independent framing model. What follows an overlong or malformed line in the framed decoder is not judged.",
  dict(native=native(12, 40)))
P("C05", "state machine of typed-string operations with an invariant monitor after every step",
  "random programs of construction, conversion, transformation, splitting and building over all string types, every byte value in every position; non-trivial = a value whose type invariant and contents were checked against the reference rule; distinct by type and contents",
  "Every value any executed operation hands out is checked against the reference rule of its type and the expected bytes.",
  dict(native=native(300, 300)))
P("C06", "UTF-8 view monitor: std's validator against every text view, along operation histories",
  "random programs over valid, truncated, overlong and surrogate sequences incl. splits inside code points; non-trivial = a value whose text views were compared with the standard library's validator; distinct by contents",
  "Any &str produced from bytes that are not UTF-8, any refusal of valid text, and any stale cached verdict in an executed history is reported.",
  dict(native=native(80, 100)))
P("C07", "memory-safety sanitizers: Miri (aliasing, uninitialised reads, dangling, leaks) and AddressSanitizer over histories that drive every piece of unsafe code",
  "random histories of string, secret-buffer, tag/name-map (incl. abandoned edit sessions), argument-list, message, mode, numeric, base64-chunk and channel operations; non-trivial = an operation whose result was fully read back and compared while the sanitizer watched; distinct by operation and contents",
  "Undefined behaviour, invalid values, out-of-bounds or freed memory accesses and leaks on an executed history are reported by Miri/ASan; functional read-back also runs natively. Network-backed code (tokio, rustls) is not run under the interpreters.",
  dict(native=native(240, 240), miri=dict(procs=dict(quick=8, thorough=32), slices=8, scale=dict(quick=0.08, thorough=0.05), flags=["-Zmiri-disable-stacked-borrows"]), asan=native(20, 8)))
P("C11", "online comparison of edit histories with an ordinary ordered map",
  "random groupings of inserts, updates, removals, lookups and clears into edit sessions (some abandoned) over small colliding and large key sets, on message tags and name maps; non-trivial = a map state compared entry by entry with the model; distinct by map contents",
  "Every return value, every lookup inside and outside sessions, sizes, iteration order from both ends, equality and hashes are compared with the model on each executed history.",
  dict(native=native(120, 150)))
P("C12", "online comparison of edit histories with a plain list model",
  "random sequences of constructor, setter and editor calls over words, long, empty and colon-leading strings; non-trivial = a list state compared with the model, written and re-parsed; distinct by contents",
  "Every accessor, the written form and the re-parsed list are compared with the model after each executed edit.",
  dict(native=native(120, 150)))
P("C08", "data-race detection (Miri's race detector and weak-memory emulation over many schedules; AddressSanitizer on real threads) with content monitors in every thread",
  "2-4 threads each holding handles to the same buffer (and one shared object) cloning, dropping, taking by value, converting, transforming, splitting and validating concurrently under many schedules; non-trivial = a concurrent history in which every handle's contents were checked; distinct by per-thread operation sequence and data",
  "Races, use after free, double free and leaks on an executed schedule are reported by the sanitizers; wrong contents by the per-thread monitors. Miri explores weak-memory behaviours on small histories, native runs explore real parallelism.",
  dict(native=native(6, 6, shards=4), asan=native(1, 4, shards=4), miri=dict(procs=dict(quick=24, thorough=160), slices=1, scale=dict(quick=0.02, thorough=0.03), flags=["-Zmiri-disable-stacked-borrows"], rotate=[[], ["-Zmiri-preemption-rate=0.1"], ["-Zmiri-preemption-rate=0.3"]])))
P("C13", "serialise/deserialise round-trip monitor over several real formats",
  "generated strings, numerics, message kinds, tags, argument lists, sources, messages and server addresses pushed through a self-describing text format, a self-describing binary format, a non-self-describing binary format and self-written formats, plus hostile input for every deserialiser; non-trivial = a value serialised and read back (or an input judged); distinct by value and format",
  "Compares the value read back with the original on every executed case and checks every accepted value against its type's rule. Trusts serde_json, ciborium and bincode.",
  dict(native=native(120, 150)))
P("C14", "online comparison of mode sets, classes and parsers with a reference model",
  "random histories of mode set operations, CHANMODES/PREFIX strings (well formed, malformed, overlapping) and every byte as a mode letter; non-trivial = a set or parsed description compared letter by letter with the model; distinct by contents",
  "Every query of every executed state is compared with plain sets.",
  dict(native=native(300, 300)))
P("C15", "chunking and reassembly compared with an independent base64 and chunk rule",
  "payloads of every length around multiples of the chunk size (all lengths up to 1300 at the real size), several payloads in a row through one decoder, corrupted chunks; non-trivial = a payload encoded and compared chunk by chunk or reassembled; distinct by payload and limit",
  "Compares each executed encoding and decoding with a reference written from RFC 4648 and the IRC SASL specification.",
  dict(native=native(625, 625)))
P("C16", "online comparison of case mapping, trimming and splitting with byte-level reference rules",
  "strings over all byte values, with emphasis on the letters and punctuation the mappings disagree about, in every ownership state; non-trivial = a string whose mapped/trimmed/split forms and comparisons were checked; distinct by contents and mapping",
  "Compares each executed transformation with a byte table written from the protocol documents.",
  dict(native=native(750, 750)))
P("C17", "virtual-clock monitor: every push, pop, wait and label compared with a list and a token bucket, plus an independent count of every time window",
  "random histories of pushes, nested and discarded edit sessions, pops, waits (also 1 ns short), limit changes, adjusters, labelers, clears and resets on a clock the monitor controls; non-trivial = a queue state checked (length, wait, order, labels); distinct by length, wait, limits and history",
  "Every message that leaves on an executed history is checked for order, time and label. Time is virtual (the clock calls of the process are intercepted), so waits are compared to the nanosecond.",
  dict(native=native(400, 400)))
_CONC = dict(miri=dict(procs=dict(quick=24, thorough=160), slices=1, scale=dict(quick=0.01, thorough=0.01), flags=["-Zmiri-disable-stacked-borrows"], rotate=[[], ["-Zmiri-preemption-rate=0.1"], ["-Zmiri-preemption-rate=0.4"]]))
P("C20", "exactly-once checker over recorded send/receive/drop outcomes; Miri race detector and AddressSanitizer watch the same histories",
  "1-3 sender threads holding up to 6 handles (raw, optional, unparking, boxed) sending, cloning, polling and dropping against one receiver peeking, polling, blocking or leaving, with random delays; plus exact single-thread histories; non-trivial = a history whose sends, receipts and drops were balanced; distinct by per-thread operations and outcome",
  "Every value is tracked from creation to its one drop; blocking receipts are checked against the senders still alive. Miri varies schedules and weak-memory outcomes on small histories, native threads run many more.",
  dict(native=native(24, 24, shards=4), asan=native(1, 4, shards=4), **_CONC))
P("C21", "wake-up monitor: signals begun vs waits returned, under stray unparks; Miri deadlock and race detection",
  "rounds of signal and wait from 1-3 unparkers (unpark, send, clone, drop) with stray thread wake-ups and random delays, ending with every unparker gone; non-trivial = a run whose waits were matched with signals; distinct by who signalled when",
  "A wait that returns without a signal, a wait satisfied by a used signal and a wait that never returns (30 s natively, deadlock under Miri) are reported on executed schedules.",
  dict(native=native(24, 24, shards=4), asan=native(1, 4, shards=4), **_CONC))
P("C18", "online checker of the handler trace: every delivery, yield, finish, cancellation and written line compared with the message stream, sync and async clients against each other",
  "message streams in adversarial chunks over a simulated connection, with sets of scripted handlers added, yielding, finishing, pushing replies and cancelled at random points, slow and stalling peers, synchronous and tokio clients; non-trivial = a run whose reported yields/finishes and handler deliveries were compared with the model; distinct by stream, script and outcome",
  "Every handler call, every run result and every byte written on an executed history is compared with the model. Connection and clock are simulated; no real sockets.",
  dict(native=native(60, 200)))
P("C19", "virtual-clock trace checker: every timeout, write and byte of a simulated stalling connection compared with the configured limits",
  "connections that stall before, inside and after messages, refuse writes or accept them a few bytes at a time, with random read, write and rate limits, on a clock the monitor owns; non-trivial = a run whose outcome and timing were compared with the limits; distinct by limits, stalls and outcome",
  "Judges each executed run's outcome, its virtual duration and the bytes delivered. Limits below one second count as one second; ties between a message and a wait may go either way.",
  dict(native=native(60, 200)))
P("C23", "online comparison of SASL dialogues with a reference state machine, credentials decoded and checked",
  "mechanism queues (PLAIN, EXTERNAL, custom multi-step, duplicates) against a simulated server that succeeds, fails, aborts, lists mechanisms and sends challenges in any chunking, valid and malformed; non-trivial = a server line whose answer was compared with the model; distinct by dialogue",
  "Every line the client sends, and when it reports success or failure, is compared with the model on each executed dialogue; credentials are decoded with an independent base64.",
  dict(native=native(3000, 3000)))
P("C24", "online comparison of generated nick sequences with a reference generator (exact for sequential strategies, alphabet/length patterns for seeded ones)",
  "trees of nick lists, prefixes, suffix strategies and seeds, driven by random in-use/invalid reply sequences, plus the built-in defaults; non-trivial = a candidate compared with the reference or its pattern; distinct by configuration and candidate",
  "Every candidate of each executed sequence is compared; sequences of more than 3000 candidates are cut.",
  dict(native=native(150, 600)))
P("C25", "trace checker: every line received matched with exactly the replies it calls for",
  "streams of PINGs, PONGs, CTCP requests, notices and replies in every argument shape and with every kind of source, two clients wired to each other, latency probes against right and wrong PONGs; non-trivial = a received line whose replies were compared with the rule; distinct by line",
  "Compares the replies to each executed line with the rule written from the protocol documents, byte for byte.",
  dict(native=native(120, 300)))
P("C26", "online comparison of tracked identity with a reference interpreter, and of reported budgets with written bytes",
  "streams of NICK, CHGHOST, USERHOST replies and noise about the client and about others, messages of every shape with identities of every length, capability request lists, resets at any point; non-trivial = a state or budget compared; distinct by state and message",
  "The budget is checked by building the message that just fits and the one that does not and measuring what is written and relayed. Accounts are not tracked after registration.",
  dict(native=native(1200, 1500)))
P("C22", "simulated-server dialogues with an online model of what registration must send, when it must end and what it must have learnt",
  "options (client, bot and custom registrations, passwords, nick lists, capability sets, SASL queues) against a simulated server that varies capability lists, line splits, acknowledgement groupings, refusals, SASL dialogues, nick rejections, pings and noise at every point, welcome bursts, redirects, bans and errors; non-trivial = a server line whose answers and outcome were compared with the model; distinct by whole dialogue",
  "Every line the client sends, the line on which it finishes, its result and the recorded state are compared with the model on each executed dialogue, with the synchronous and the tokio client.",
  dict(native=native(800, 3000)))
P("C09", "non-interference monitor: everything printed or logged about a secret compared with what is printed about a different secret of the same shape, plus a search of all output for its contents",
  "string histories in which some strings are secret (every conversion, split, transform, copy and escape), secrets inside argument lists, tags, messages, queues, SASL configurations, registration options and CTCP bodies, and whole registration/login sessions (sync and tokio) with a log subscriber capturing every record; non-trivial = a secret or container printed in every format and compared; distinct by secret, type and history",
  "Compares all output of two runs that differ only in the secret and searches the output for it (raw, escaped, numeric, base64). Empty secrets, serialisation, parse-error texts and strings rebuilt with Builder are outside the claim.",
  dict(native=native(20, 150)))
P("C10", "instrumented allocator: every block given back is searched for pieces of the secrets in play (raw and base64)",
  "histories of fill, grow, partial and failing reads, clear, clone, convert, replace and drop on secret buffers; of copy, mark, split, convert, transform, escape, decode, encode, store in messages/options/queues and drop on secret strings with shared and unshared handles; SASL logins from configuration to queued messages; several threads sharing one secret; non-trivial = a history whose released blocks were all searched; distinct by operations and secrets",
  "Every heap block released on an executed history is searched in full before it goes back to the allocator; reallocation always moves, so growth is seen too. Memory handed to the caller as a plain vector or string, the connection's write buffer and stack copies are outside the claim.",
  dict(native=native(200, 3000)))
P("C27", "online comparison of every known name, numeric and advertised value with tables and readers written from the protocol documents",
  "every numeric, verb, capability, tag and feature name in every case and with edits one byte away, classified through each map; feature values (numbers, lists, mode and prefix sets, escapes, missing, malformed and absurd) read through each feature's type; argument lists of every length through each message kind; non-trivial = a name classified or a value read and compared; distinct by name and value",
  "The name tables are restated in the harness from the IRC documents; feature tokens with a leading minus and numbers with a leading plus are not judged.",
  dict(native=native(300, 300)))
P("C29", "online comparison of every capability reply read or combined with a reader written from the capability negotiation document",
  "replies with every subcommand in any letter case, lists of 0-120 items with names and values over all bytes, unrepresentable names, repeated names, extra spaces, read from lines or built as argument lists, owned and borrowed; near-miss replies; sequences of up to 60 lines of mixed exchanges folded together; non-trivial = a reply read and compared entry by entry; distinct by reply",
  "The reader it is compared with is about 15 lines. Arguments beyond the documented ones and whitespace other than the space inside a list are not judged.",
  dict(native=native(320, 320)))
P("C30", "state-machine monitor over client state histories: an ordinary map from keys to values, and a count of how often each stored value was dropped",
  "random histories of storing, changing and reading values under 30 keys (many sharing a value type or a name), making handlers, moving the state into a client, to other connections, channel kinds and threads, and resetting; non-trivial = a state of which every key was read back; distinct by history",
  "Every key is read back after every step, through shared and mutable access; every value is counted until it is dropped. Miri runs small histories of the same kind.",
  dict(native=native(300, 300), miri=dict(procs=dict(quick=4, thorough=16), slices=4, scale=dict(quick=0.03, thorough=0.05), flags=["-Zmiri-disable-stacked-borrows"])))
P("C31", "online comparison of every equality, order, hash and lookup with the plain contents of the values compared",
  "families of closely related strings of every type, message kinds, sources, tag lists, argument lists, messages, CTCP and addressed values, server addresses and mode letters, each made in a random way (borrowed, owned, shared, secret, parsed, already asked for its text, cloned), compared pairwise and looked up in hash and tree collections; non-trivial = a family of which every pair was compared; distinct by contents",
  "Equality and hashing are compared with the contents; the order of strings and kinds with that of their bytes (which collections looked up by bytes rely on), other orders only with the laws of an order.",
  dict(native=native(1500, 1500)))
P("C28", "real loopback connections to scripted plain and TLS servers: every outcome compared with the configured trust, every byte delivered compared with the bytes sent",
  "connections over real sockets, synchronous and tokio, to servers with valid, expired, misnamed, self-signed and unknown-issuer certificates, under every trust configuration, with and without client certificates, by default and explicit port, plus certificate files in every state (missing, empty, garbage, several chains); then messages both ways in random pieces; non-trivial = a connection attempt whose outcome was compared with the model; distinct by configuration, server and outcome",
  "Server side is rustls with certificates generated beforehand and committed with the harness. Judges only handshakes and transfers actually executed on 127.0.0.0/8; possession of the server's key under the no-verification setting is left open.",
  dict(tls=native(10, 15)), ["the loopback network works"])

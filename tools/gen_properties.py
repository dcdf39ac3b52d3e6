#!/usr/bin/env python3
"""Writes properties.jsonl. Kept as source so that the statements stay readable."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

p("C01", "Messages survive a write/parse round trip",
  "Any client or server message that can be built through the public API (sources having a non-empty host), once written to the wire and parsed back, equals the original: same tags and tag values (a valueless tag and an empty value are the same thing), same source, same command or numeric, same arguments in the same order with the same bytes. The written form is always exactly one line (no NUL, CR or LF), and the in-memory formatting, the synchronous writer, the asynchronous writer and the framed encoder all produce the same bytes. Servers' and clients' halves of the library agree in both directions.",
  ["inputs"], "all messages over all tags, tag values, sources, commands/numerics and argument lists, including empty, non-UTF-8, whitespace-bearing and ':'-leading ones",
  "Unit tests round-trip a handful of hand-written ASCII messages; the claim is over every byte value in every position.",
  ["src/ircmsg/codec.rs", "src/ircmsg/tags.rs", "src/ircmsg/args.rs", "src/ircmsg/source.rs", "src/ircmsg/client.rs", "src/ircmsg/server.rs", "src/string/tf/escape.rs"],
  [("wire writer", "src/ircmsg/codec.rs write_to"), ("line parser", "src/ircmsg/codec.rs parse"), ("tag escaping", "src/string/tf/escape.rs"), ("argument long/short decision", "src/ircmsg/args.rs")])

p("C02", "Parsing untrusted input is total",
  "For every byte string a peer can send, parsing it as a message, tag list, argument list, source, capability list, CTCP body, mode string or server numeric returns a value or an error after work proportional to the input: it never panics, never loops forever and never reads or allocates out of proportion to the input. Every value it returns can be inspected, printed, cloned, made owning and written out again without a panic.",
  ["inputs"], "all byte strings up to the protocol maximum, as borrowed, owned and str input",
  "Existing tests parse about a dozen well-formed lines; crashes and hangs live in malformed ones.",
  ["src/ircmsg/codec.rs", "src/ircmsg/tags.rs", "src/ircmsg/args.rs", "src/ircmsg/source.rs", "src/ircmsg/ctcp.rs", "src/ircmsg/servermsgkind.rs", "src/client/cap.rs", "src/state/mode.rs", "src/names"],
  [("line parser", "src/ircmsg/codec.rs parse"), ("string splitter", "src/string/splitter.rs"), ("tag parser", "src/ircmsg/tags.rs")])

p("C03", "Parsing follows the IRCv3 message grammar",
  "A line is split into tags, source, command and arguments exactly as the IRCv3 grammar says: tags only after a leading '@', source only after a leading ':', command next (case-insensitive for letters, three digits for numerics), then space-separated arguments with the remainder after ' :' taken verbatim as the last one. Tag values are unescaped as specified, later duplicates of a tag win, a tag without a valid key is ignored whole, a source is split into the nick (up to the first '!' or '@'), the user (after '!', up to the next '@') and the host (the rest), and a CTCP body is recognised by its delimiters. A line the grammar rejects (no command, empty or malformed command, malformed source, forbidden bytes) is reported as an error instead of being partly accepted; non-space whitespace before a component is left open.",
  ["inputs"], "all lines built from the grammar with optional parts, repeated separators, escapes and near-miss corruptions",
  "Unit tests check fixed examples; the grammar is a product of optional parts, escapes and separators.",
  ["src/ircmsg/codec.rs", "src/ircmsg/tags.rs", "src/ircmsg/args.rs", "src/ircmsg/source.rs", "src/ircmsg/ctcp.rs", "src/ircmsg/servermsgkind.rs", "src/ircmsg/targeted.rs", "src/string/tf/escape.rs"],
  [("line parser", "src/ircmsg/codec.rs parse"), ("source parser", "src/ircmsg/source.rs"), ("CTCP parser", "src/ircmsg/ctcp.rs")])

p("C04", "Stream framing is independent of how bytes arrive",
  "Reading messages from a stream yields the same sequence of messages whatever the sizes of the pieces it arrives in, however many would-block, timeout or interruption results are mixed in, and whichever reader is used (owning, borrowing, synchronous, asynchronous, framed): every complete line is delivered exactly once, in order, and nothing is invented from an incomplete one. Empty lines are skipped, LF and CRLF endings are equivalent, and a message is accepted if and only if it is within the protocol length limit. What a reader does with whitespace-only lines, and what the framed decoder does after reporting an overlong or malformed line, is left open.",
  ["inputs", "fault_sequences"], "all message sequences, all chunkings, all placements of would-block/interrupted/EOF faults, lengths on both sides of the limit",
  "Unit tests read from a complete in-memory buffer; partial reads and faults are never placed inside a message.",
  ["src/ircmsg/codec.rs"],
  [("read loop", "src/ircmsg/codec.rs read_msg!/read_buf!"), ("framed decoder", "src/ircmsg/codec.rs tokio_codec")])

p("C05", "String types never hold bytes their type forbids",
  "However a value of one of the library's restricted string types is obtained through the safe API (constructors, conversions, splitting, building, case mapping and other transformations, parsing, deserialising), its bytes satisfy the rule its type documents, e.g. no NUL, no line break, no space, not empty, no leading colon. Conversely each checked constructor accepts every byte string that satisfies the rule, keeps its bytes unchanged, and rejects every other one, naming an offence those bytes really contain.",
  ["inputs", "histories"], "all byte strings, all string types, all sequences of safe string operations",
  "Unit tests construct a few literals per type; the guarantee is over all bytes and all operation sequences.",
  ["src/string/subtypes.rs", "src/string/subtypes/macros.rs", "src/string/subtypes/impls.rs", "src/string/splitter.rs", "src/string/builder.rs", "src/string/tf"],
  [("per-type byte predicates", "src/string/subtypes.rs"), ("splitter", "src/string/splitter.rs"), ("builder", "src/string/builder.rs"), ("transform safety traits", "src/string/subtypes/macros.rs")])

p("C06", "Text views are valid UTF-8 and equal the bytes",
  "Every text view of a string that the library hands out is valid UTF-8 and, unless it is the documented lossy or placeholder form, has exactly the string's bytes; whether a view is offered depends only on the bytes and never on how the string was made, split, joined or transformed, or on which checks ran before. The lossy form equals the standard replacement-character decoding.",
  ["inputs", "histories"], "all byte strings (including every truncation inside a multi-byte character) and all sequences of splitting, building, transforming, cloning and checking operations",
  "The UTF-8 knowledge is cached and propagated through operation sequences; unit tests never cut inside a character.",
  ["src/string/bytes.rs", "src/string/splitter.rs", "src/string/builder.rs", "src/string/tf.rs", "src/string/tf/casemap.rs", "src/string/tf/trim.rs"],
  [("cached validity", "src/string/bytes.rs utf8"), ("splitter encoding tracking", "src/string/splitter.rs Range"), ("builder tracking", "src/string/builder.rs utf8")])

p("C07", "Safe operations never cause undefined behaviour",
  "No sequence of safe API calls on strings, builders, splitters, secret buffers, tag lists, argument lists, name maps, mode sets or messages reads or writes outside an allocation, uses or frees freed memory, reads uninitialised memory, creates an invalid value or leaks an owned buffer. This includes calls that fail, guards that are dropped early or leaked, and values that outlive what they were made from.",
  ["inputs", "histories", "programs"], "all sequences of safe calls, with all sizes including zero, exact capacity and reallocation boundaries",
  "Ordinary tests do not notice an out-of-bounds write that hits padding; none run under a memory checker.",
  ["src/util/ownedslice.rs", "src/util/thinarc.rs", "src/util/flatmap.rs", "src/util/dynsized.rs", "src/string/bytes.rs", "src/string/secretbuf.rs", "src/owning.rs", "src/ircmsg/tags.rs", "src/ircmsg/args.rs"],
  [("owned slice", "src/util/ownedslice.rs"), ("refcounted buffer", "src/util/thinarc.rs"), ("flat map", "src/util/flatmap.rs")])

p("C08", "Shared strings are safe to use from many threads",
  "Strings and messages can be cloned, read, compared, checked, converted and dropped concurrently on any number of threads: no data race occurs, every thread sees the original bytes until it drops its handle, and the shared buffer is released exactly once, after its last user. Taking a buffer over for reuse succeeds only for its sole owner.",
  ["schedules", "histories"], "all interleavings of clone, drop, read, convert-to-vector and validity checks on handles to one buffer",
  "No existing test shares a string between threads.",
  ["src/util/thinarc.rs", "src/string/bytes.rs", "src/ircmsg/source.rs"],
  [("atomic reference count", "src/util/thinarc.rs"), ("sole-owner reuse", "src/string/bytes.rs into_vec")])

p("C09", "Secrets are never shown",
  "The contents of a non-empty string marked secret never appear in formatted output of that string, of anything derived from it by cloning, making owning, splitting, case mapping, trimming, escaping, lossy decoding or base64 encoding, or of any message, queue, argument list, tag list or log record that contains it. Passwords and SASL payloads that the library itself puts into messages are treated as secret, and they are still sent intact. Serialisation, parse-error texts and strings rebuilt with the string builder are outside the claim.",
  ["inputs", "histories"], "all secret contents and all chains of derivations, all formatting forms, registration and SASL runs with logging on",
  "No existing test formats a derived secret.",
  ["src/string/bytes.rs", "src/string/splitter.rs", "src/string/tf/escape.rs", "src/string/base64.rs", "src/owning.rs", "src/client/auth", "src/client/register", "src/client/conn/sync.rs", "src/ircmsg/client.rs"],
  [("secret flag", "src/string/bytes.rs"), ("derived strings keep it", "src/string/bytes.rs using_value/transform"), ("placeholder formatting", "src/string/bytes.rs Display/Debug")])

p("C10", "Secret memory is wiped before it is released",
  "When the last handle to an owned secret buffer goes away, or the buffer is grown or replaced, no heap block that the library gives back to the allocator still contains the secret's bytes. This covers secret buffers, secret strings, their clones and owned copies, and the SASL payloads built from them. It does not cover memory handed to the caller as a plain vector or string, a connection's own write buffer, or text the caller supplied.",
  ["histories"], "all sequences of fill, grow, clear, clone, convert, share and drop on secret buffers and secret strings",
  "Freed memory is invisible to unit tests.",
  ["src/string/secretbuf.rs", "src/string/bytes.rs", "src/util/ownedslice.rs", "src/string/base64.rs", "src/client/auth"],
  [("wipe on drop", "src/string/secretbuf.rs Drop"), ("wipe of shared buffers", "src/string/bytes.rs")])

p("C11", "Tag and name collections behave as maps",
  "Under every sequence of inserts, updates, removals, lookups, iterations and clears, and in every grouping of those into editing sessions, message tags, capability and server-feature maps behave as an ordinary key-value map: one entry per key, last write wins, a removed key is gone, lookups inside and outside a session agree, sizes are exact. Iteration visits every entry exactly once in key order, and equality and hashing depend only on the entries. An editing session that is leaked instead of ended still leaves a valid map.",
  ["histories"], "all operation sequences over small key sets that force collisions, in all groupings into edit sessions",
  "Unit tests perform a single insertion sequence; errors need particular interleavings of insert, lookup and remove inside one session.",
  ["src/util/flatmap.rs", "src/ircmsg/tags.rs", "src/names.rs", "src/names/types.rs", "src/client/logic.rs"],
  [("sorted vector with unsorted tail", "src/util/flatmap.rs"), ("tag editing", "src/ircmsg/tags.rs"), ("name map", "src/names/types.rs")])

p("C12", "Argument lists keep every argument in order",
  "Under every sequence of edits, an argument list holds exactly the added arguments in order, reports its count, its emptiness and its byte length (always reckoned as if the last argument had a colon), and tells the last one apart as long exactly when it cannot be written as a plain word (or was added as long). Adding an argument when the last one is long replaces and returns that one, adding a word inserts it before a long last one, and neither loses or reorders anything else. Splitting off the first or last argument loses and reorders nothing.",
  ["histories", "inputs"], "all edit sequences over words, long arguments, empty strings and colon-leading strings",
  "Unit tests check two or three sequences.",
  ["src/ircmsg/args.rs"],
  [("argument editor", "src/ircmsg/args.rs ArgsMut")])

p("C13", "Serialised values deserialise to equal, valid values",
  "Serialising any string, numeric, message kind, tag list, argument list, source, message or server address that is valid UTF-8 and deserialising it in a self-describing format gives an equal value; in other formats, and for values that are not UTF-8, it gives an equal value or an error, never a different value. Deserialising arbitrary data, registration options included, never panics and never produces a value that breaks its type's rule: it is rejected with an error.",
  ["inputs"], "all values of the serialisable types and all (including hostile) serialised documents",
  "Only two unit tests deserialise one fixed document each.",
  ["src/string/serde.rs", "src/ircmsg/numeric.rs", "src/ircmsg/servermsgkind.rs", "src/client/register/defaults.rs", "src/client/auth", "src/client/conn.rs", "src/client/nick.rs"],
  [("checked deserialisation", "src/string/serde.rs"), ("derived impls", "src/ircmsg/numeric.rs, src/client")])

p("C14", "Mode handling follows its set semantics",
  "Mode sets behave as sets of mode letters under every operation, and every invalid letter is rejected. A server's advertised mode classes are read so that every letter is reported with exactly the class it was advertised in, and letters advertised in two classes are reported as overlapping and belong to none. Advertised status prefixes are accepted exactly when they have the form '(modes)prefixes' with no mode or prefix repeated, and every mode is then reported with its own prefix (or none, where the prefixes run out) and every prefix with its mode.",
  ["inputs", "histories"], "all letter sets, all advertised class/prefix strings including malformed and overlapping ones",
  "Unit tests cover two advertised strings.",
  ["src/state/mode.rs", "src/names/isupport.rs"],
  [("bit set", "src/state/mode.rs ModeSet"), ("class partition check", "src/state/mode.rs ModeTypes"), ("prefix parser", "src/state/mode.rs StatusModes")])

p("C15", "SASL payloads are chunked and reassembled losslessly",
  "For every payload, the outgoing chunks are non-empty, each at most the chunk limit, concatenate to the payload's base64, and end with a chunk shorter than the limit (a lone '+' when nothing is left). Feeding any peer's chunks back, however many challenges follow each other on one connection, yields exactly the original payloads, each as soon as its last chunk arrives; malformed base64 is reported as an error and does not corrupt the next payload.",
  ["inputs", "histories"], "all payload lengths around multiples of the chunk size, all contents, sequences of payloads and errors",
  "Unit tests cover two lengths.",
  ["src/string/base64.rs", "src/client/auth/handler.rs"],
  [("chunk encoder", "src/string/base64.rs ChunkEncoder"), ("chunk decoder", "src/string/base64.rs ChunkDecoder")])

p("C16", "Case mapping and trimming match their definitions",
  "Each case mapping folds exactly the byte pairs its name defines and leaves every other byte alone, is idempotent, and two names are equal after it exactly when the mapping says they are the same name. Trimming removes exactly the leading and/or trailing ASCII whitespace asked for. None of them changes the original string or any other handle to it.",
  ["inputs"], "all byte strings, all mappings and trim sides, shared and borrowed strings",
  "Unit tests map a few literals.",
  ["src/string/tf/casemap.rs", "src/string/tf/trim.rs", "src/string/tf.rs", "src/string/bytes.rs"],
  [("byte maps", "src/string/tf/casemap.rs"), ("copy-on-write transform", "src/string/bytes.rs transform")])

p("C17", "Outgoing messages are rate limited, in order, without loss",
  "Messages leave the queue in exactly the order they were queued, each once, and none is lost unless it was explicitly discarded. In any time window of length W at most 1 + burst + W/delay messages leave; when none may leave yet, the reported wait is positive and exactly the time after which the next one may, an idle queue regains at most its configured burst, a changed limit takes effect as if the burst had just been used up, and a reset restores the full burst and keeps the limits. Labels attached to messages are unique per labeler and equal the label handed back to the caller.",
  ["histories", "configurations"], "all timings of pushes, pops, rate-limit changes, adjustments and resets, on a controlled clock",
  "No existing test advances time through a queue.",
  ["src/client/queue.rs"],
  [("leaky bucket", "src/client/queue.rs pop"), ("labeler", "src/client/queue.rs use_labeler_default"), ("edit guard", "src/client/queue.rs QueueEditGuard")])

p("C18", "Every handler sees every message and is reported exactly",
  "Each message received while a handler is active is passed to that handler exactly once, in arrival order, until it finishes, and never after it finishes or is cancelled. Each run reports exactly the handlers that yielded a value or finished on that message; identifiers of simultaneously active handlers are distinct; and everything handlers queue is written to the connection, in order. The synchronous and asynchronous clients behave identically.",
  ["histories", "fault_sequences"], "all message streams, all sets of handlers that are added, yield, finish or get cancelled at any point, all read chunkings and timeouts",
  "Unit tests run one handler on one canned stream.",
  ["src/client.rs", "src/client/logic.rs", "src/client/handler.rs", "src/client/conn/sync.rs", "src/client/conn/tokio.rs"],
  [("dispatch loop", "src/client/handler.rs Handlers::handle"), ("run loop", "src/client/conn/sync.rs run"), ("async run loop", "src/client/conn/tokio.rs run_tokio")])

p("C19", "Timeouts fire only when configured and lose nothing",
  "A run reports a read timeout only if a read timeout is configured and no message arrived for that long (limits under a second count as a second); waiting for the send rate limit never surfaces as a timeout and never leaves a shorter limit behind on the connection. A timeout in the middle of a message loses none of its bytes, and queued messages go out no later than their rate-limit wait. A connection that ends is reported as an error once every complete message was delivered, never as a timeout. A connection that stops accepting data fails with a timeout or would-block error after the configured write limit, measured from when it stopped, and not before.",
  ["configurations", "fault_sequences", "histories"], "all placements of stalls relative to messages, all combinations of read limit, write limit and rate limit, on a virtual clock",
  "No existing test makes a connection stall.",
  ["src/client/conn/time.rs", "src/client/conn/sync.rs", "src/client/conn/tokio.rs"],
  [("time limiting wrappers", "src/client/conn/time.rs"), ("run loops", "src/client/conn/sync.rs, src/client/conn/tokio.rs")])

p("C20", "A one-shot value is delivered exactly once",
  "A value sent over a one-shot channel is received exactly once or, if the other side is gone, dropped exactly once; a blocking receive reports a closed channel only after every sender is gone without having sent, and at most one send reports success. This holds for every interleaving of sending, cloning, receiving and dropping on any threads, without data races, use after free, double drop or leak. A non-blocking receive gives the value if it was sent before, and otherwise closes the channel.",
  ["schedules", "histories"], "all interleavings of up to several sender clones and one receiver, each sending, polling, blocking or being dropped at any point",
  "The two existing tests sleep to force one fixed order.",
  ["src/client/handler/channel/oneshot.rs", "src/client/handler/channel.rs"],
  [("slot with state flags", "src/client/handler/channel/oneshot.rs")])

p("C21", "A parked receiver wakes exactly when it should",
  "A thread that waits for its sender (one waiting thread at a time) returns once a value was sent or the last sender was dropped, and not before, whatever unrelated wake-ups it receives and whether the signal comes before, during or after it starts waiting. No wake-up is lost and a later wait is not satisfied by an earlier signal.",
  ["schedules"], "all interleavings of parking, unparking, cloning, dropping and spurious wake-ups",
  "Existing tests use sleeps to force four fixed orders.",
  ["src/client/handler/channel/parker.rs", "src/client/handler/channel/oneshot.rs"],
  [("park loop", "src/client/handler/channel/parker.rs")])

p("C22", "Registration completes correctly with any conforming server",
  "Against every conforming server dialogue (servers that support capability negotiation or silently ignore it), registration sends password, capability request, user and nick messages in a valid order, requests only advertised capabilities (in lines whose acknowledgements also fit one line), ends negotiation exactly once, answers every ping, and finishes exactly when the server's welcome is complete. The resulting nick, account, capabilities, server features, version and server identity are those the server announced. If a required capability is missing or refused, a required login does not happen, the nicks are exhausted or the server refuses access, registration fails with the matching error and never reports success.",
  ["histories", "configurations"], "all server dialogues: capability lists in one or many lines, acknowledgements in any grouping, SASL outcomes, nick collisions, pings anywhere, feature lists of any length; all client options",
  "Two unit tests replay one canned dialogue each.",
  ["src/client/register.rs", "src/client/register/handler.rs", "src/client/register/defaults.rs", "src/client/cap.rs"],
  [("registration state machine", "src/client/register/handler.rs"), ("initial burst", "src/client/register.rs"), ("capability requests", "src/client/cap.rs")])

p("C23", "SASL login tries mechanisms in order and reports the truth",
  "A login reports success exactly when the server confirms it, and failure exactly when no configured mechanism is left or the server's replies are unusable; on each failure the next usable mechanism is tried in order, each at most once per configuration, starting with a clean challenge buffer. Mechanisms the server declares unsupported are skipped, and one that objects to a challenge is aborted and not tried again under the same name. For a given mechanism the bytes sent decode to exactly the specified credentials message.",
  ["histories", "inputs"], "all server reply sequences (success, failure, abort, mechanism lists, challenges in any chunking), all mechanism queues and credentials",
  "Unit tests check one credential string and one canned dialogue.",
  ["src/client/auth.rs", "src/client/auth/handler.rs", "src/client/auth/sasl", "src/client/auth/secret.rs"],
  [("mechanism queue", "src/client/auth.rs SaslQueue"), ("negotiation handler", "src/client/auth/handler.rs"), ("mechanisms", "src/client/auth/sasl")])

p("C24", "Nick generators give valid, fresh nicks and stop",
  "Every nick a generator yields is a valid nick built as configured, the configured nicks come first and in order, suffixes are drawn only from the configured alphabet and length, and sequential suffixes never repeat a candidate. Generators with finitely many candidates end, and none of them panics. Suffixes are no longer added to a nick that the server rejected as invalid, while the remaining configured nicks are still offered.",
  ["configurations", "histories"], "all nick lists, suffix strategies, lengths and seeds, all in-use/invalid reply sequences",
  "Unit tests draw a few nicks from one configuration.",
  ["src/client/nick.rs", "src/client/nick/suffix.rs"],
  [("nick list", "src/client/nick.rs"), ("suffix strategies", "src/client/nick/suffix.rs")])

p("C25", "Automatic replies answer what they should and nothing else",
  "Every PING is answered by exactly one PONG carrying the PING's token (its last argument), in order, and nothing else triggers one. A CTCP version request is answered once, to its sender, with the configured text; notices, replies and messages without a sender are never answered, so two clients cannot loop. Latency measurements report only on the PONG that carries their own token.",
  ["histories", "inputs"], "all server message streams with all argument shapes, sources and message kinds",
  "Unit tests answer one ping.",
  ["src/client/handlers/ping.rs", "src/client/handlers/autoreply.rs"],
  [("pong", "src/client/handlers/ping.rs"), ("CTCP replies", "src/client/handlers/autoreply.rs")])

p("C26", "Client identity tracking and length budgets are right",
  "While tracking is active, the client's recorded nick, user and host always equal what the server's messages (nick changes, host changes, user-host replies) have announced so far, and messages about other users do not change them. A message whose reported remaining length is not negative fits the 512-byte line limit with terminator and relayed sender prefix included (the last argument reckoned with a colon, an unknown prefix at its longest), and one more byte than reported would not; capability requests are split so that each fits. Resetting the client returns all of this to its initial state: it then behaves like a fresh one.",
  ["histories", "inputs"], "all server message streams about the client and about others, all message shapes and identity lengths",
  "No existing test feeds a stream to the tracker or compares a budget with real written bytes.",
  ["src/client/handlers/track.rs", "src/client/logic.rs", "src/ircmsg/client.rs", "src/ircmsg/server.rs", "src/ircmsg/codec.rs"],
  [("tracker", "src/client/handlers/track.rs"), ("length budget", "src/ircmsg/codec.rs bytes_left"), ("assumed source length", "src/client/logic.rs calc_source_len")])

p("C27", "Well-known names and advertised values are read correctly",
  "Every protocol name the library defines (commands, numerics, capabilities, tags, server features) stands for exactly its official text: it equals, hashes, prints, is looked up and is written like that text and like no other. A server feature's advertised value is read as exactly what it spells, through every way of reading it, and one that does not spell a valid value is rejected and never altered. The typed view of a message's target and text returns exactly the arguments in those places, or reports that they are missing.",
  ["inputs"], "all names and near-names, all feature values, all argument lists",
  "Unit tests read a handful of names and one feature value.",
  ["src/names.rs", "src/names", "src/ircmsg/numeric.rs", "src/ircmsg/servermsgkind.rs", "src/ircmsg/targeted.rs"],
  [("name tables and maps", "src/names, src/names/types.rs"), ("feature values", "src/names/isupport.rs"), ("numerics", "src/ircmsg/numeric.rs"), ("typed messages", "src/names/cmd.rs, src/ircmsg/targeted.rs")])

p("C28", "Connections authenticate the server as configured and carry bytes intact",
  "A TLS connection is established only if the server's certificate chain satisfies the configured trust (system roots, those and more, only the listed ones, or no verification) and is valid for the address, TLS is used exactly when the address asks for it and the no-TLS connect was not chosen, a configured client certificate chain is presented when the server asks, and certificate or key files that cannot be read are errors. Connections go to the stated host and port (6697 with TLS and 6667 without when unstated), and addresses are equal exactly when their TLS setting, port number and host are. On an established connection every byte arrives unchanged and in order in both directions, the read and write limits set on it apply to its socket, and shutting its sending side down ends the stream for the server after everything sent before while what the server still sends is received.",
  ["configurations", "inputs", "faults"], "all trust settings, server certificate chains, client certificates, addresses, piecewise deliveries, synchronous and asynchronous connections",
  "No existing test opens a connection.",
  ["src/client/tls.rs", "src/client/conn.rs", "src/client/conn/sync.rs", "src/client/conn/tokio.rs"],
  [("TLS configuration", "src/client/tls.rs"), ("addresses", "src/client/conn.rs ServerAddr"), ("connecting and streams", "src/client/conn/sync.rs, src/client/conn/tokio.rs")])

p("C29", "Capability replies are read and combined exactly",
  "A server's capability reply is read as the nick it is addressed to, its subcommand (in either letter case), whether more lines of it follow, and exactly the capabilities it lists, each with its value (everything after the first '='; empty if there is none), the last mention of a name counting. An item whose name is not a valid capability name is skipped without affecting the others, and a reply without nick, known subcommand or list, or with something other than '*' before the list, is rejected. Combining a reply with the next one succeeds exactly when the first announced more lines and both are addressed to the same nick with the same subcommand; the result then holds the capabilities of both, later values winning, and is complete exactly when the newer one is. Otherwise the newer one is handed back unchanged and the older one keeps what it had.",
  ["inputs", "histories"], "all capability lists, subcommands, nicks, line splits and interleavings of replies",
  "Unit tests read two short lists and combine them once.",
  ["src/client/cap.rs"],
  [("reading a reply", "src/client/cap.rs ServerMsgArgs::parse"), ("joining lines", "src/client/cap.rs ServerMsgArgs::combine"), ("subcommands", "src/client/cap.rs SubCmd")])

p("C30", "Shared client state is a faithful typed store",
  "The state that handlers share holds for every key exactly the value stored under it last: keys never mix, even when their value types or names are alike, and nothing is present that was not stored. Reading, changing and replacing values work alike through every kind of access; the state is visible to every handler made afterwards, and survives being put into a client and the client's moves to another connection, channel kind or thread. Resetting the client removes all of it, together with all handlers and queued messages, and every stored value is dropped exactly once: when it is replaced, reset, or its owner goes away.",
  ["histories"], "all sequences of stores, reads, changes, moves, handler creations and resets over any number of keys",
  "No existing test stores more than one value.",
  ["src/client/logic.rs", "src/client/state.rs", "src/client.rs", "src/util/flatmap.rs"],
  [("state store", "src/client/logic.rs ClientState"), ("moves and resets", "src/client.rs Client, src/client/logic.rs ClientLogic")])

p("C31", "Equality, ordering and hashing depend only on the value",
  "Two values of a type are equal exactly when they say the same: strings when they hold the same bytes, message kinds when they are spelled alike, sources, tag lists (in whatever order tags were added), argument lists and whole messages when all their parts are equal, server addresses when host, TLS setting and effective port agree. Where the text came from, who owns it, whether it is secret and what has been asked of it before make no difference, and a value equals its copies and what is read back from its written form. Equal values hash alike and order is total and agrees with equality. A string, numeric or message kind compares with plain text, byte slices and byte arrays by its bytes, and hashes and orders like its bytes, so that collections of them can be searched by bytes.",
  ["inputs"], "all pairs of values of these types, however they were made",
  "Unit tests compare a few literals; nothing tests hashes or orders.",
  ["src/string/", "src/ircmsg/", "src/util/flatmap.rs", "src/client/conn.rs", "src/state/mode.rs"],
  [("strings", "src/string/bytes.rs, src/string/subtypes/macros.rs"), ("messages and their parts", "src/ircmsg/*.rs"), ("maps", "src/util/flatmap.rs"), ("addresses", "src/client/conn.rs ServerAddr")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))

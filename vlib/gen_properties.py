#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the readable source of the property list)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert all(p["id"] != id for p in P), id
    assert len(title) <= 80, id
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})
S = "src/"
R = "src/recorder/"
SR = "src/recorder/stream_recorder/"
T = "src/tracer/"
PP = "src/tracer/propagation/"

prop("C01", "The finished-span buffer accepts each span once and refuses only when full",
     "Any number of threads may add finished spans to the bounded buffer while one thread drains it: every accepted element is seen by the drain exactly once and in the order its own producer added it, never more than the capacity is buffered, and nothing is left in a slot half-filled when it is visible. An element is refused only when buffered elements plus elements accepted during the call reach the capacity, and a refused element stays with its caller. No operation races, loses, leaks or doubles an element, on any wrap-around of the positions.",
     ["schedules", "histories"], "all interleavings (with relaxed-memory stale reads) of producers and one consumer, and all operation sequences across wrap-around",
     "Tests run a few thread timings; a lost slot or a spurious refusal needs one particular interleaving of two compare-and-swaps.",
     [S+"common/circular_buffer.h", S+"common/circular_buffer_range.h", S+"common/atomic_unique_ptr.h"],
     [("CircularBuffer::Add swap-if-null then CAS on head", S+"common/circular_buffer.h"), ("CircularBuffer::Consume", S+"common/circular_buffer.h")],
     [("head_/tail_", "production and consumption counts", S+"common/circular_buffer.h")])

prop("C02", "What a satellite connection puts on the wire is well-formed chunked HTTP",
     "Whatever short writes, would-block results, disconnections and shutdowns occur, the bytes written on one connection are a prefix of a valid HTTP/1.1 chunked POST whose header names the host and whose chunks decode to a report header with the dropped-span count followed by whole spans, each unmodified; nothing of one connection's byte stream ever appears on another. The terminating zero chunk is written exactly once, only after a requested shutdown and after every started span, and then the stream reports itself completed and writes nothing further.",
     ["fault_sequences", "histories"], "all sequences of span arrivals, flushes, shutdowns, resets and every split of every write",
     "Tests push a few hand-picked partial writes; corruption needs a split at a particular byte combined with a following operation.",
     [SR+"connection_stream.cpp", SR+"span_stream.cpp", S+"common/chained_stream.cpp", S+"common/fragment_array_input_stream.cpp", S+"network/vector_write.cpp"],
     [("ConnectionStream::Flush/FlushShutdown/Reset", SR+"connection_stream.cpp"), ("SpanStream::Seek remnant", SR+"span_stream.cpp")])

prop("C03", "Every recorded span is sent at most once and each is sent, dropped or pending",
     "In the streaming recorder each finished span is, at any time, in exactly one of these states: waiting, completely written to exactly one connection and counted as sent once, partially written and owned by the connection that started it, or discarded and counted as dropped once. Sent plus dropped plus waiting plus partially written therefore equals the spans recorded, over any interleaving of writes, failures and reconnections of any number of connections, and spans leave in the order they were recorded.",
     ["fault_sequences", "histories"], "all histories of arrivals, partial writes, errors, resets over one or two connections sharing one buffer",
     "The tests compare counters after a random simulation of one connection; they do not enumerate failures at every byte with several connections.",
     [SR+"span_stream.cpp", SR+"connection_stream.cpp", R+"metrics_tracker.cpp", S+"common/circular_buffer.h", S+"network/vector_write.cpp"],
     [("SpanStream::Seek/Clear", SR+"span_stream.cpp"), ("ConnectionStream::Reset", SR+"connection_stream.cpp")])

prop("C04", "Dropped-span counts reach the satellites exactly once",
     "Each dropped span is counted in the number announced at the head of exactly one connection whose header was completely written, or is still pending to be announced; counts announced in a header that was not fully written are pending again after the connection is reset. Concurrent drops, announcements and give-backs never lose or double a count, and an announced count decodes to the number it was set to, for every non-negative value.",
     ["schedules", "fault_sequences", "histories"], "all interleavings of counting threads; all reconnect histories; boundary values of the count",
     "Tests check the sum for a few reconnects of one connection, single threaded.",
     [R+"metrics_tracker.h", R+"metrics_tracker.cpp", SR+"connection_stream.cpp", R+"serialization/embedded_metrics_message.cpp"],
     [("MetricsTracker", R+"metrics_tracker.h"), ("ConnectionStream::Reset/InitializeStream", SR+"connection_stream.cpp")])

prop("C05", "A gathered write transmits an exact prefix and advances the streams by it",
     "Writing several fragment streams to a socket sends, in order and once, exactly the bytes by which the streams then advance, whatever short counts, would-block answers and errors the system returns and however many fragments there are; it reports success exactly when everything was written, reports not-finished when the socket would block, and raises an error, with the streams advanced by what had been sent, otherwise. After a short or failed write it makes no further write in that call.",
     ["fault_sequences", "inputs"], "every result the system call may return at every call, for every small division into fragments and counts beyond the system's vector limit",
     "Tests write to a real socket pair, so only the splits the kernel happens to make are seen.",
     [S+"network/vector_write.cpp", S+"common/fragment_input_stream.cpp", S+"common/platform/network_unix.cpp"],
     [("Write", S+"network/vector_write.cpp"), ("Consume", S+"common/fragment_input_stream.cpp")])

prop("C06", "Fragment streams behave as one cursor over the concatenated bytes",
     "A fragment stream, plain or composed of appended streams in any nesting, presents exactly the not yet consumed suffix of its bytes; moving it to a fragment and offset, consuming any number of bytes across several streams, clearing and re-assigning move that cursor and nothing else, the number of fragments always equals the fragments shown, and an interrupted iteration reports so and changes nothing.",
     ["inputs", "histories"], "all small fragment layouts, all append trees, all sequences of seek, consume, clear and append up to a depth",
     "Tests try one or two seeks on fixed layouts.",
     [S+"common/fragment_array_input_stream.cpp", S+"common/fragment_input_stream.cpp", S+"common/composable_fragment_input_stream.cpp", S+"common/chained_stream.cpp"],
     [("Consume", S+"common/fragment_input_stream.cpp"), ("Seek", S+"common/fragment_array_input_stream.cpp"), ("SegmentSeek", S+"common/chained_stream.cpp")])

prop("C07", "The block-chained output stream yields exactly the bytes written to it",
     "For every pattern of obtaining buffers, filling them and giving back unused space, the byte count is the number of bytes kept, and after closing the fragments concatenate to exactly those bytes in order, with nothing emitted when nothing was written; this holds in particular at every size around a multiple of the block size and after giving back a whole block.",
     ["inputs", "histories"], "all sequences of Next/BackUp with boundary counts up to a depth, and all total sizes over several blocks",
     "Tests write a few fixed strings.",
     [S+"common/chained_stream.h", S+"common/chained_stream.cpp"],
     [("ChainedStream::Next/BackUp/CloseOutput", S+"common/chained_stream.cpp")])

prop("C08", "A finished span is reported exactly as it was built",
     "Whatever sequence of operations built a span (name, references, tags, logs, baggage, times, set at start or later), its serialized report decodes to the final name, ids, references, start time, duration, and every tag and log record in effect with its value, with keys and order preserved and nothing else added but what the tracer documents. This holds for all value types including nested and extreme ones, and for every length of field, across internal block boundaries.",
     ["inputs", "programs"], "all operation sequences up to a depth over boundary names, keys and values, all field lengths across several blocks",
     "Tests decode a handful of spans with short fields.",
     [T+"span.cpp", T+"serialization.cpp", S+"common/serialization.cpp", S+"common/serialization.h", S+"common/direct_coded_output_stream.h", S+"common/chained_stream.cpp", T+"legacy/legacy_span.cpp"],
     [("Span::FinishWithOptions", T+"span.cpp"), ("WriteTag/WriteLog", T+"serialization.cpp")])

prop("C09", "A span may be used from several threads and is reported once",
     "Operations on one span from several threads never race or corrupt it; a span is reported exactly once, by the first finish or by its destruction if never finished, and not at all when unsampled. Operations that return before the finish starts are in the report, operations that start after it returns have no effect, and reading baggage, ids or injecting from other threads at the same time yields values that were actually set.",
     ["schedules"], "all interleavings up to a preemption bound of two or three threads doing span operations and finish",
     "Tests use spans from one thread.",
     [T+"span.cpp", T+"legacy/legacy_span.cpp", T+"lightstep_span_context.h", S+"common/spin_lock_mutex.h"],
     [("mutex_ in Span", T+"span.cpp")])

prop("C10", "The batching recorder delivers spans in order and flushes as promised",
     "The default background recorder hands spans to the transport at most once, in order, drops only when the buffer is full (counting the drop), sends at the reporting period or when enough spans are buffered, and folds the number dropped into the next report, giving it back if the send fails. Flush returns true as soon as everything recorded before it was handed over, false when its time-out passes or the recorder is stopped first, and never hangs. A report that disables the tracer or a transport that throws stops the recorder: nothing more is sent and later spans are dropped. Closing the tracer flushes (waiting as long as a plain flush does), and destroying the recorder ends its thread without waiting for the next report.",
     ["schedules", "fault_sequences"], "all schedules up to a preemption bound of recording, flushing and closing threads against the writer thread, with every transport result and time-out choice",
     "Tests use a mock clock with one fixed ordering.",
     [R+"auto_recorder.cpp", R+"auto_recorder.h", R+"report_builder.cpp", S+"common/condition_variable_wrapper.h"],
     [("AutoRecorder::FlushWithTimeout/Write", R+"auto_recorder.cpp")])

prop("C12", "The manual recorders account for every span over any history",
     "With the manually flushed recorders every recorded span is in exactly one report passed to the transport, in order, or counted as dropped because the buffer was full, and the drop counts in reports add up to the drops not given back after a failure. The legacy manual recorder has at most one report in flight: a flush while one is in flight is carried out when its callback comes. A flush whose report the transport refuses by throwing returns false, and every success or failure callback, in any order with records and flushes, leaves the recorder usable.",
     ["histories", "fault_sequences"], "all sequences of record, flush and transport callback with every outcome, up to a depth",
     "Tests script three or four callbacks.",
     [R+"manual_recorder.cpp", R+"legacy_manual_recorder.cpp", R+"serialization/report_request.cpp"],
     [("ManualRecorder::FlushOne/OnSuccess/OnFailure", R+"manual_recorder.cpp"), ("LegacyManualRecorder::FlushOne", R+"legacy_manual_recorder.cpp")])

prop("C13", "The streaming recorder's flush and close wait exactly as promised",
     "A flush with time-out on the streaming recorder returns true only when every span recorded before it has left the buffer, returns false only after its time-out, and returns true within the polling period if a connection can take the spans. Closing with a time-out returns true only when every connection is closed, after which none is opened, and false only after the time-out; connections that do not finish are given up after their grace period. Closing the tracer flushes for as long as a plain flush would and, if that succeeds, closes the connections in what is left of that time. Destroying the recorder takes no longer than a polling period, sends the waiting spans if a connection can take them, and leaves no thread, socket or event behind. A span is dropped, and counted, only if the buffer is full; a buffer filled past its mark is sent at the next poll and any span after the reporting period.",
     ["schedules", "fault_sequences"], "all schedules up to a preemption bound of recording, flushing and closing threads against the recorder's event loop, with every time-out choice",
     "Tests use real satellites and wall-clock sleeps.",
     [SR+"stream_recorder.cpp", SR+"stream_recorder_impl.cpp", S+"tracer/tracer_impl.cpp"],
     [("TracerImpl::Close", S+"tracer/tracer_impl.cpp"), ("StreamRecorder::FlushWithTimeout/ShutdownWithTimeout", SR+"stream_recorder.cpp"), ("StreamRecorderImpl::Poll/Flush", SR+"stream_recorder_impl.cpp")])

prop("C14", "Forking leaves parent and child with working, independent recorders",
     "Around a fork in any state of a streaming recorder (by the thread that uses it, as documented), no thread runs and no connection is open during the fork, the parent loses and repeats nothing, a span that was cut off is counted as dropped and drop counts are announced once, and the recorder goes on. The child starts with its own thread and connections and neither the spans nor the drop counts nor a pending shutdown of the parent. A manual recorder's child reports none of the parent's spans or drops. Every recorder in existence, and none that has been destroyed, is told exactly once before and once after each fork.",
     ["histories", "schedules"], "all sequences of creating, destroying and forking up to a depth; all sequences of recording, flushing, closing, waiting and forking, with the fork at any scheduling point of the recorder's thread",
     "One test forks once in a quiet state.",
     [R+"fork_aware_recorder.cpp", R+"fork_aware_recorder.h", SR+"stream_recorder.cpp", SR+"stream_recorder_impl.cpp", SR+"connection_stream.cpp", R+"manual_recorder.cpp"],
     [("ForkAwareRecorder active list and pthread_atfork handlers", R+"fork_aware_recorder.cpp")])

prop("C15", "Each satellite connection always recovers and never leaks or hangs",
     "Whatever sequence of connect failures, socket errors, partial writes, early or late or malformed responses, closes and timer expirations occurs, a connection closes every socket it opens, uses no socket after closing it, reconnects (where connecting failed, only after the retry delay), gracefully recycles itself at its reconnect period, gives up a graceful shutdown after its time limit, and terminates completely when asked to close. It writes only while connected and flushes waiting spans when the socket becomes writable.",
     ["fault_sequences", "histories"], "all event sequences (readable, writable, timer, error results) up to a depth against a simulated socket layer and clock",
     "Tests need a live server and see the usual event order only.",
     [SR+"satellite_connection.cpp", SR+"satellite_connection.h", SR+"satellite_streamer.cpp", S+"network/socket.cpp", S+"network/event.cpp"],
     [("SatelliteConnection state machine", SR+"satellite_connection.cpp")])

prop("C16", "Satellite host names are resolved, refreshed and retried without gaps",
     "For every order and outcome of IPv4 and IPv6 answers, time-outs and failures, name resolution reports ready exactly when the first usable address set is known, keeps the last known addresses while refreshing, refreshes at the configured period, retries failures after the configured delay, and ignores nothing and hangs on nothing. Endpoint choice then cycles through all usable addresses of all configured hosts in round-robin fashion and returns each with its own port, host and family, and none before one is known. Without any host it refuses to be made.",
     ["fault_sequences", "histories", "configurations"], "all outcomes and orders of resolver answers and timers up to a depth, for one to three hosts and both families",
     "Tests use a scripted DNS server with one or two answers.",
     [SR+"satellite_dns_resolution_manager.cpp", SR+"satellite_endpoint_manager.cpp", SR+"utility.cpp"],
     [("SatelliteDnsResolutionManager", SR+"satellite_dns_resolution_manager.cpp"), ("SatelliteEndpointManager::RequestEndpoint", SR+"satellite_endpoint_manager.cpp")])

prop("C18", "The response status line is read the same however it is fragmented",
     "The parsed status code and reason of a satellite's response depend only on the bytes received, not on how they were split into reads; parsing completes exactly at the end of the first line, a well-formed line yields its three-digit code and reason text, and a line lacking one of its parts (fewer than two separating blanks) raises an error; nothing is ever read out of bounds. After a reset the parser behaves as new.",
     ["inputs"], "all strings over a small alphabet of significant bytes up to a length, and every way of splitting each into reads",
     "Tests split two or three lines at chosen places.",
     [SR+"status_line_parser.cpp", SR+"status_line_parser.h"],
     [("StatusLineParser::Parse", SR+"status_line_parser.cpp")])

prop("C19", "A span context injected into any carrier is recovered by extracting it",
     "For every supported propagation format and combination of formats and every carrier kind, extracting what was injected returns the same trace id, span id, sampling decision and baggage that the format can carry, including zero-padded, extreme and 128-bit ids and any printable baggage, and extracting leaves the carrier unchanged. Injecting a context that was itself extracted passes on the incoming trace state the format defines.",
     ["inputs", "configurations"], "all formats, pairs of formats, boundary ids, sampling flags and baggage maps with significant characters",
     "Tests round-trip one or two fixed contexts per format.",
     [PP+"propagation.cpp", PP+"multiheader_propagator.cpp", PP+"baggage_propagator.cpp", PP+"trace_context_propagator.cpp", PP+"cloud_trace_propagator.cpp", PP+"envoy_propagator.cpp", PP+"binary_propagation.cpp", PP+"trace_context.cpp"],
     [("InjectSpanContext/ExtractSpanContext", PP+"propagation.cpp")])

prop("C20", "Extraction of arbitrary carrier content is total, safe and consistent",
     "For any carrier content, extraction either yields a context, yields none, or reports the carrier corrupted, and never crashes, reads out of bounds or invents ids; malformed, truncated, duplicated or mis-cased headers are judged by the format's rules whatever the order of the carrier's entries, an id given twice in headers of its own is corrupt, header names are matched ignoring case where the carrier is HTTP, and with several formats configured the first that matches wins and nothing from a non-matching one leaks into the result.",
     ["inputs", "configurations"], "all short strings over significant bytes for each header, all subsets and orders of headers, single-byte corruptions and truncations of valid values",
     "Tests try a few bad headers per format.",
     [PP+"propagation.cpp", PP+"multiheader_propagator.cpp", PP+"trace_context.cpp", PP+"trace_context_propagator.cpp", PP+"cloud_trace_propagator.cpp", PP+"envoy_propagator.cpp", PP+"binary_propagation.cpp", T+"binary_carrier.cpp"],
     [("MultiheaderPropagator::ExtractSpanContextImpl", PP+"multiheader_propagator.cpp"), ("ParseTraceContext", PP+"trace_context.cpp")])

prop("C21", "Trace id, parentage, sampling and baggage follow the references of a span",
     "A span started without usable references begins a new trace with fresh ids and is sampled; with references it continues the first usable referenced trace, is sampled when any of them is, passes on their trace states in order, and carries the baggage of its references; every usable reference appears in the report, foreign or null ones are ignored, a sampling tag at start or later overrides the decision, and unsampled spans are never recorded. Children created in another process through injection see the same.",
     ["programs", "configurations"], "all small trees of spans with every kind of reference, sampling tags and baggage operations in every order",
     "Tests build one parent and one child.",
     [T+"span.cpp", T+"legacy/legacy_span.cpp", T+"utility.cpp", T+"tracer_impl.cpp", T+"legacy/legacy_tracer_impl.cpp"],
     [("Span constructor SetSpanReference", T+"span.cpp")])

prop("C22", "Tag and log values become the documented typed values and valid JSON",
     "Each tag or log value is reported under its key with its own type: booleans, integers (unsigned values beyond the signed range reinterpreted), doubles and strings unchanged, null as false, and lists and maps as JSON text that parses back to the same structure (numbers inside to six significant digits), for any nesting, any bytes needing escapes and non-finite numbers. Legacy and streaming serializations agree.",
     ["inputs"], "all values up to a nesting depth over boundary scalars and all single bytes in strings",
     "Tests convert six values.",
     [T+"utility.cpp", S+"common/utility.cpp", T+"serialization.cpp"],
     [("ToJson/WriteEscapedString", S+"common/utility.cpp"), ("ToKeyValue", S+"common/utility.cpp")])

prop("C23", "Generated ids are distinct across threads and after fork",
     "Random ids drawn in any threads, and in a process and its forked children, come from independently seeded streams: a child never repeats its parent's sequence after a fork in any order of draws and forks, each thread has its own stream, a batch of ids equals the same number of distinct successive draws, and generation never races. The generator itself reproduces the documented sequence for a seed.",
     ["schedules", "histories"], "all interleavings of threads drawing ids, all orders of draws and forks up to a depth",
     "A single test forks once.",
     [S+"common/random.cpp", S+"common/random.h", S+"common/fast_random_number_generator.h", S+"common/platform/fork_unix.cpp"],
     [("TlsRandomNumberGenerator with atfork reseeding", S+"common/random.cpp")])

prop("C24", "The random traversal visits every index exactly once",
     "Visiting n items in random order visits each index from zero to n-1 exactly once per traversal, stops exactly when the visitor says so and reports that, and a following traversal again visits every index, for every sequence of random numbers.",
     ["inputs", "histories"], "all random outcomes for n up to a bound, all stopping points, repeated traversals",
     "Tests sample a few permutations.",
     [S+"common/random_traverser.cpp", S+"common/random_traverser.h"],
     [("RandomTraverser::ForEachIndex", S+"common/random_traverser.cpp")])

prop("C25", "Hexadecimal, varint and framing codecs are exact inverses on every value",
     "Formatting any 64-bit or 128-bit id as hexadecimal and parsing it back gives the id; parsing accepts exactly the non-empty strings of hexadecimal digits, any case, with optional leading zeros and surrounding blanks, that fit, and rejects every other byte string without reading out of bounds. Encoded integers, lengths, keys and frame headers have exactly the announced size, decode by the standard protobuf and HTTP-chunk rules to the value, and never touch bytes outside their buffer.",
     ["inputs"], "every byte value at every position, all strings over significant bytes up to a length, every boundary value of each encoder",
     "Tests use a few values and no bytes above 127.",
     [S+"common/hex_conversion.cpp", S+"common/hex_conversion.h", S+"common/serialization.cpp", S+"common/serialization.h", S+"common/direct_coded_output_stream.h", S+"common/chunked_http_framing.cpp", S+"common/report_request_framing.cpp", S+"common/protobuf.cpp"],
     [("HexToUint64/Uint64ToHex", S+"common/hex_conversion.cpp"), ("DirectCodedOutputStream", S+"common/direct_coded_output_stream.h")])

prop("C26", "Sockets, events and event loops own their resources exactly once",
     "Every descriptor, event and event loop acquired is released exactly once, by the object holding it last, over any sequence of construction, move, move-assignment, connection, failure and destruction; a failure raises an error and leaks nothing, an in-progress connection is not an error, a moved-from object owns nothing, and operations act on the descriptor the object currently owns.",
     ["histories", "fault_sequences"], "all sequences of ownership operations on two objects up to a depth, with a failure injected at every system call",
     "Tests move a socket once.",
     [S+"network/socket.cpp", S+"network/event.cpp", S+"network/event_base.cpp", S+"network/timer_event.cpp", S+"common/platform/network_unix.cpp"],
     [("Socket move and FreeSocket", S+"network/socket.cpp"), ("Event move", S+"network/event.cpp")])

prop("C27", "The spin lock excludes, and hands over memory, and never sticks",
     "At most one thread is inside the spin lock at a time, everything written inside is visible to the next holder, and a released lock can always be taken again, under every interleaving.",
     ["schedules"], "all interleavings with relaxed-memory stale reads of two and three threads",
     "A test with many increments cannot show a missing fence on this machine.",
     [S+"common/spin_lock_mutex.h"], [("SpinLockMutex", S+"common/spin_lock_mutex.h")])

prop("C28", "The owning atomic pointer transfers ownership exactly once",
     "An element handed through the atomic owning pointer belongs to exactly one owner at any time: a conditional put succeeds for exactly one contender and only into an empty slot, leaving the element with the loser, an exchange returns precisely what was held, reset and destruction free the held element once, and the receiving thread sees the element fully constructed, under every interleaving.",
     ["schedules", "histories"], "all interleavings with stale reads of two or three threads and all operation sequences up to a depth",
     "Tests call each operation once in one thread.",
     [S+"common/atomic_unique_ptr.h"], [("AtomicUniquePtr::SwapIfNull/Swap/Reset", S+"common/atomic_unique_ptr.h")])

prop("C29", "A report's size, count, fragments and copies all describe the same bytes",
     "For a report with any header, dropped-span count and any number and size of spans, the byte count, span count and drop count are exact, the fragments concatenate to the header, the metrics when drops occurred, and the spans in order, copying out yields the same bytes in exactly that many, an interrupted iteration stops at once, and the whole decodes as the collector's report message.",
     ["inputs"], "all combinations of header size, drop counts and span sizes around block boundaries, all interruption points",
     "The test checks one report.",
     [R+"serialization/report_request.cpp", R+"serialization/report_request.h", S+"common/buffer_chain.cpp", "include/lightstep/buffer_chain.h"],
     [("ReportRequest::AddSpan/ForEachFragment", R+"serialization/report_request.cpp"), ("BufferChain::CopyOut", S+"common/buffer_chain.cpp")])

prop("C30", "Configuration is accepted, rejected and applied as written",
     "Constructing a tracer from options or JSON text never throws: it succeeds exactly for valid configurations and otherwise reports failure, with an explanation, and releases all it was given. Options are valid when the transporter fits: none or a synchronous one with a thread, an asynchronous one (of either kind) without, none and plaintext for the streaming recorder; JSON is valid when it reads as the configuration message with endpoint ports from 1 to 65535 and known propagation formats. The recorder made is the one the options call for; every setting given reaches it, and every one omitted (or a reporting period of zero) has its documented default; single-key propagation overrides the list of formats; reports carry the access token, the user's tags, the library's platform tags and the component's name, by default the program's. The factory of the loadable library distinguishes unreadable from invalid configurations and refuses another OpenTracing ABI.",
     ["configurations", "inputs"], "all combinations of the options' significant values, all subsets of the JSON settings, all values of one or two of them, all single-byte corruptions of a JSON configuration",
     "Tests build a handful of configurations.",
     [T+"tracer.cpp", T+"json_options.cpp", T+"lightstep_tracer_factory.cpp", T+"dynamic_load.cpp", T+"propagation/propagation_options.cpp", S+"common/platform/utility_unix.cpp", "include/lightstep/tracer.h"],
     [("MakeLightStepTracer", T+"tracer.cpp"), ("MakeTracerOptions", T+"json_options.cpp"), ("LightStepTracerFactory::MakeTracer", T+"lightstep_tracer_factory.cpp")])

prop("C31", "The small sorted map behaves as an ordered map with unique keys",
     "Inserting or assigning, looking up and iterating behave as in a standard ordered map over any sequence of operations and keys: one value per key, ascending order, found exactly when present.",
     ["histories"], "all operation sequences up to a depth over a small key alphabet",
     "Tests do a few insertions.",
     [S+"common/flat_map.h"], [("FlatMap", S+"common/flat_map.h")])

prop("C32", "Logging respects the level and never fails its caller",
     "A message is passed to the sink exactly when its level is at or above the configured one, with its complete text and its level, for every combination of levels, also when the level changes between messages, and an exception thrown by the sink never reaches the caller.",
     ["configurations"], "all pairs of levels, level changes, argument kinds and throwing sinks",
     "Tests log at one or two levels.",
     [S+"common/logger.h", S+"common/logger.cpp"], [("Logger::Log", S+"common/logger.h")])

prop("C33", "Time conversions are exact for all times since the epoch",
     "Converting a time point since the epoch to a report timestamp and back loses nothing beyond the clock's resolution, seconds and nanoseconds are normalized, durations and deadlines converted to the system's structures keep their value to the microsecond and are never negative or denormal, and the start time of a span is derived consistently whichever of the two clocks is given.",
     ["inputs"], "all boundary combinations of seconds and sub-second parts around normalization boundaries",
     "Tests convert the current time.",
     [S+"common/timestamp.h", S+"common/timestamp.cpp", S+"common/protobuf.cpp", S+"common/platform/utility_unix.cpp", T+"utility.cpp"],
     [("ProtobufFormatTimestamp/ComputeStartTimestamps/ToTimeval", S+"common/timestamp.cpp")])

prop("C35", "The DNS resolver answers every query exactly once",
     "Every query started calls back exactly once with the addresses in the answer or with an error, for every order of socket readiness, time-outs, partial and failed answers, also when the resolver is destroyed with queries outstanding; sockets watched are exactly those the resolving library asks for, and a query whose answer never arrives still times out.",
     ["fault_sequences", "histories"], "all event orders up to a depth against a simulated resolving library and event loop",
     "Tests use a live mock DNS server.",
     [S+"network/ares_dns_resolver/ares_dns_resolver.cpp", S+"network/ares_dns_resolver/ares_library_handle.cpp"],
     [("AresDnsResolver", S+"network/ares_dns_resolver/ares_dns_resolver.cpp")])

prop("C36", "Addresses keep family, host and port through every conversion",
     "An address built from text, from system structures of either family, or from a host entry keeps its family, address bytes and port; comparison is equality of these (for zero-padded system structures), printing and parsing are inverses, setting the port changes only the port, and text that is no address is refused.",
     ["inputs"], "all boundary octets, groups and ports in both families and all short strings over the significant characters",
     "Tests parse three addresses.",
     [S+"network/ip_address.cpp", S+"network/ip_address.h"], [("IpAddress", S+"network/ip_address.cpp")])

prop("C40", "Binary propagation over other languages' bridge behaves identically",
     "The Python bridge converts every Python object to the matching tracer operation and back without leaking or double-freeing a reference.",
     ["programs"], "all sequences of bridge calls",
     "The bridge's tests need a Python extension build.",
     ["bridge/python/src"], [("Python bridge", "bridge/python/src")])

prop("C41", "The gRPC transport delivers each report with its time-out and outcome",
     "Each report given to the gRPC transport is sent once with the configured deadline and access token, and its success or failure is returned.",
     ["fault_sequences"], "all RPC outcomes", "Tests do not cover it.",
     [R+"grpc_transporter/grpc_transporter.cpp"], [("GrpcTransporter::Send", R+"grpc_transporter/grpc_transporter.cpp")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")

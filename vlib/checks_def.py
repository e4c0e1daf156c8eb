# The registered checks (read by gen_manifest.py).
check("C01", ["c01_ring_threads", "c01_ring_seq"], THR, "model_checking",
      "Every schedule of small producer/consumer programs up to the preemption and stale-read bound, and every operation sequence over small capacities incl. position wrap-around, runs the real CircularBuffer; element identity, order, capacity, refusal rule, leaks and data races are checked on each.",
      "Real CircularBuffer/CircularBufferRange/AtomicUniquePtr under a controlled scheduler; 1-3 producers, capacities 1-4.",
      ["scheduler models sequentially consistent interleavings plus bounded stale reads permitted by the C++ memory model"])
check("C02", ["c02_framing", "c02_connection", "c03_recorder", "c02_streaming"], SEQ, "model_checking",
      "All histories of span arrivals, flushes, shutdowns and resets up to a depth with every write cut at fragment borders (and at every byte for fixed histories) on the real streaming pipeline; the bytes of every connection are read back by an independent strict HTTP chunk reader. The same reader judges whole satellite connections (several satellites, every order of events up to a depth), every size of span through the recorder's framing, and the schedules of the whole recorder.",
      "ConnectionStream, SpanStream, CircularBuffer and the gathered write with a vector limit of 4 against a simulated writev; two connections sharing one buffer. SatelliteStreamer and StreamRecorder over simulated system calls and event loop.")
check("C03", ["c02_framing", "c02_connection", "c03_recorder", "c02_streaming"], SEQ, "model_checking",
      "Same histories; after every step each recorded span is attributed from the wire bytes to exactly one state, and the sent/dropped counters must agree with that attribution; likewise for whole satellite connections and for the schedules of the whole recorder.",
      "See C02; the reference model is the attribution of spans from the bytes on each simulated connection.")
check("C04", ["c04_metrics", "c04_message", "c02_connection", "c03_recorder", "c02_streaming"], THR, "model_checking",
      "All interleavings of dropping, announcing and giving back on the real MetricsTracker; all boundary counts through the real announcement encoder and the connection header; reconnect histories of C02 with the announced counts decoded from the wire; likewise for whole satellite connections and the schedules of the whole recorder.",
      "MetricsTracker under the controlled scheduler; EmbeddedMetricsMessage and ConnectionStream for every boundary value and give-back point.")
check("C05", ["c05_write"], ENV, "fault_enumeration",
      "Every result the write system call may give at every call, over all small divisions into fragments and fragment counts around and beyond the vector limit, on the real Write.",
      "Real Write/Consume/network_unix with writev replaced; the accepted bytes are compared with what the streams advanced by.")
check("C06", ["c06_cursor"], SEQ, "model_checking",
      "All small fragment layouts, append trees and sequences of seek, consume, clear, append up to a depth against a string cursor model.",
      "Every fragment stream class of the repository against a reference byte-string cursor.")
check("C07", ["c07_blocks"], SEQ, "model_checking",
      "All sequences of obtaining and giving back buffers with boundary counts and every total size over several blocks on the real ChainedStream.",
      "Reference: the list of bytes kept by the caller.")
check("C08", ["c02_framing", "c08_spans"], SEQ, "model_checking",
      "All sequences of span operations up to a depth over boundary names, keys, values, references and times, and every field length across several internal blocks, on both span kinds; the recorded bytes are decoded by an independent reader.",
      "Real Span/LegacySpan and tracers with a capturing recorder; the expected span is computed from the operations.")
check("C13", ["c13_close", "c13_recorder"], THR, "model_checking",
      "Every schedule up to the preemption bound of recording, flushing and closing threads against the recorder's own thread, and all sequences of these operations and of waiting up to a depth by one thread over one and two connections, with every time-out, connection delay, write cut, write error and satellite answer. What closing a tracer asks of its recorder, over all sequences of operations, answers and times taken.",
      "Real StreamRecorder with its thread and all below it (streamer, connections, streams, buffer) under the controlled scheduler, over simulated system calls and event loop with virtual time.",
      ["scheduler models sequentially consistent interleavings plus bounded stale reads permitted by the C++ memory model"])
check("C14", ["c14_list", "c14_stream"], THR, "model_checking",
      "All sequences of creating, destroying and forking with up to four recorders; all sequences of recording, flushing, closing, waiting and forking (going on as the parent or as the child) up to a depth, with the fork at every point of the recorder's thread and every network fault up to the bound.",
      "Real ForkAwareRecorder, StreamRecorder and ManualRecorder; the handlers given to pthread_atfork are run as fork runs them, in one process, so that the threads and sockets of both sides are observed.",
      ["what the kernel does at a fork (copying memory and descriptors) is not exercised: nothing of the recorder's runs or is open then, which the check establishes"])
check("C15", ["c15_connection"], ENV, "model_checking",
      "All sequences of readiness, every kind of response, resets, time-outs, flushes, shutdown and late name resolution up to a depth, with every write cut, refused connect and failing socket or event-loop call, for one and two connections over virtual time.",
      "Real SatelliteStreamer, SatelliteConnection, Socket, Event and platform layer over simulated system calls and event loop; the span account is read from the bytes on the wire.")
check("C16", ["c16_separate", "c16_resolution"], SEQ, "model_checking",
      "All endpoint configurations over a small name and port alphabet; all sequences of answers (one or several addresses, none, errors, at once or later), timers and endpoint requests up to a depth for one to three hosts and both families over virtual time.",
      "Real SeparateEndpoints, SatelliteDnsResolutionManager and SatelliteEndpointManager over a simulated resolver and event loop.")
check("C35", ["c35_resolver"], ENV, "model_checking",
      "All orders of answers, stray packets, truncation, resets, failures, time-outs, further queries (also from callbacks) and destruction up to a depth, with failing event-loop operations.",
      "Real AresDnsResolver over simulated c-ares (by its documented contract) and event loop with virtual time.")
check("C18", ["c18_status"], SEQ, "model_checking",
      "All status lines over significant characters and all single edits of valid responses, in every fragmentation into up to three pieces, against an independent reader.",
      "Real StatusLineParser.")
check("C21", ["c21_references"], SEQ, "model_checking",
      "All small programs of spans with every kind and order of references (own, extracted, foreign, null), sampling tags and baggage operations, on both span kinds.",
      "Real tracers with a capturing recorder; parentage, sampling, trace state and baggage are computed from the program.")
check("C22", ["c22_values"], SEQ, "model_checking",
      "All values up to a nesting depth over boundary scalars, all single bytes and pairs of significant bytes in strings, through tags and logs of both span kinds; JSON is read back by an independent parser.",
      "Real value conversion; typed value or structure equality as documented.")
check("C23", ["c23_threads", "c23_fork"], THR, "model_checking",
      "All interleavings of threads drawing ids under the controlled scheduler, all histories of draws, batches, threads and real forks up to a depth with a deterministic entropy source, and the generator's sequence over all boundary seeds.",
      "Ids drawn in all threads and processes are collected and must be distinct; streams follow the published xorshift128+ recurrence.",
      ["the entropy source never repeats a word"])
check("C24", ["c24_traverse"], SEQ, "model_checking",
      "Every outcome of every random draw (the generator is driven to each distinguishable value), every stopping point and repeated traversals, for n up to 6.",
      "Real RandomTraverser with a controlled generator.")
check("C25", ["c25_hex", "c25_wire"], SEQ, "model_checking",
      "Every byte at every position, all short strings over significant bytes, and every boundary value of each encoder, against independent readers, under address sanitizer.",
      "Hex conversion, varint, key, length, chunk header and report framing.")
check("C26", ["c26_ownership"], ENV, "model_checking",
      "All histories of construct, move, assign, use and destroy on two objects of each owning class up to a depth, with a failure injected at every system and event-library call.",
      "Socket, Event, EventBase, TimerEvent against simulated descriptors and a simulated libevent.",
      ["the simulated libevent follows libevent 2.1's documented behaviour"])
check("C27", ["c27_spin"], THR, "model_checking",
      "Every schedule with stale reads of two and three threads up to the bound; overlap, lost hand-over (data race on plain data) and deadlock are violations.",
      "Real SpinLockMutex.")
check("C28", ["c28_pointer_threads", "c28_pointer_seq"], THR, "model_checking",
      "Every schedule of put, exchange, take and reset by two or three threads up to the bound and all sequential histories up to a depth; each element's owners and lifetime are tracked.",
      "Real AtomicUniquePtr.")
check("C29", ["c29_report"], SEQ, "model_checking",
      "All combinations of header size, drop counts and span sizes around block boundaries and all interruption points on the real ReportRequest.",
      "Fragments, counts, copies and protobuf decoding are compared with the bytes put in.")
check("C31", ["c31_flat_map"], SEQ, "model_checking",
      "All operation sequences up to a depth over small key alphabets against std::map.",
      "Real FlatMap with string, integer and reversed orders.")
check("C32", ["c32_logger"], SEQ, "model_checking",
      "All pairs of levels, level changes, macro and function forms, and sinks that throw standard and foreign exceptions.",
      "Real Logger and its macros.")
check("C33", ["c33_time", "c33_stream"], SEQ, "model_checking",
      "All boundary combinations of seconds and fractions through every conversion, with controlled clocks; all sequences of clock steps and polls with the streaming recorder's kept clock offset.",
      "Exact integer arithmetic as the oracle.")
check("C36", ["c36_address"], SEQ, "model_checking",
      "All boundary octets, groups and ports through every way of building an address, and all short and single-edit texts against an independent reader of the text forms.",
      "Real IpAddress.")
check("C09", ["c09_threads"], THR, "model_checking",
      "Every schedule with stale reads up to the bound of two and three threads running all short programs of span operations and finish on one real span of either kind; the recorded span is decoded and compared with what may have been set, data races and late accesses are violations.",
      "Real Span/LegacySpan, span contexts and tracer with a capturing recorder under the controlled scheduler.",
      ["scheduler models sequentially consistent interleavings plus bounded stale reads permitted by the C++ memory model"])
check("C10", ["c13_close", "c10_auto"], THR, "model_checking",
      "Every schedule with time-outs up to the bound of recording, flushing, closing and destroying threads against the writer thread, with every transport result (success, failure, disabling, exception) and duration, and all single-threaded histories up to a depth; identity, order, batch size, drop account, report times and flush results are checked in virtual time.",
      "Real AutoRecorder and its condition variable under the controlled scheduler with a simulated transport.",
      ["scheduler models sequentially consistent interleavings plus bounded stale reads permitted by the C++ memory model"])
check("C12", ["c12_manual"], SEQ, "fault_enumeration",
      "All histories of records, flushes, disabling and transport callbacks up to a depth, with every transport outcome (later, success, failure, exceptions, reentrant recording) on both manual recorders; every report is decoded and compared with a queue model.",
      "Real ManualRecorder and LegacyManualRecorder behind the real tracer, with a simulated asynchronous transport.")
check("C19", ["c19_roundtrip"], SEQ, "model_checking",
      "All formats and pairs of formats, carriers, boundary ids, sampling, trace states and baggage maps over significant characters are injected into and extracted from real carriers and compared; injections are also read by an independent rules oracle.",
      "Real propagators, carriers and tracer functions; the oracle is the pair (what was injected, what the format can carry).")
check("C20", ["c20_extract"], SEQ, "model_checking",
      "All short values over significant bytes, all single-byte edits and truncations of valid ones, all subsets, orders and duplications of headers, carriers that fail at any point, and selections of formats; each verdict and context is compared with an independent reader of the formats' rules, under address sanitizer.",
      "Real extraction over text, HTTP, multi-map and binary carriers.")
check("C30", ["c30_config"], SEQ, "model_checking",
      "All combinations of the options' significant values with every kind of transporter, and all subsets of JSON settings, all values of one or two (three) of them and all single-byte corruptions of a full configuration; acceptance, settings, recorder, tags, formats and lifetimes are compared with what the documentation calls for.",
      "Real tracer construction, recorders, JSON reader and factory; the default transport and the streaming recorder are stand-ins that record what they are given.")
na("C40", "The Python bridge needs the CPython extension build and an interpreter embedding that this repository's sandbox build does not provide; there is no bounded state space of the repository's own code to explore without it.")
na("C41", "gRPC and its C++ headers are not installed, so the transport cannot be compiled here; a stand-in for gRPC would be the whole behaviour under test.")

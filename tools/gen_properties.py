#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Recorded events decode to exactly what was recorded",
  "Every event that is encoded into the binary event stream decodes back to the same event kind, event id, thread id and payload: intervals with the same start and end, instants with the same time, integers with the same value, each still recognisable as its own payload form. This holds for every 64-bit identifier (including values that only fit in the upper half), every 32-bit thread id, every timestamp and every value up to the documented 48-bit maximum, and the encoding has a fixed size per event.",
  ["inputs"], "all event kinds, event ids, thread ids, and all timestamp pairs / instants / integer values within the documented maximum",
  "The unit tests round-trip a handful of constants; the split of 48-bit values over three 32-bit words and the in-band instant/integer markers have boundary values (2^32-1, 2^48-3 ...) that no sample settles.",
  ["measureme/src/raw_event.rs", "decodeme/src/event_payload.rs"],
  [("RawEvent packing of 48-bit values", "measureme/src/raw_event.rs: new_interval/new_instant/new_integer, start_value/end_value"), ("serialize/deserialize", "measureme/src/raw_event.rs: serialize, serialize_impl_le/be, deserialize"), ("payload classification", "decodeme/src/event_payload.rs: EventPayload::from_raw_event")],
  observe=["RawEvent accessors", "EventPayload"])
p("C02", "Values the event format cannot represent are refused, never truncated",
  "Recording an interval whose end lies before its start, or any timestamp, instant or integer value beyond the documented maximum, is refused loudly instead of being recorded. No value is ever silently wrapped, truncated or turned into a different payload form.",
  ["inputs"], "all 64-bit start/end pairs and all 64-bit instant and integer values",
  "Tests cover three out-of-range constants; the property is about the exact boundary for every payload form.",
  ["measureme/src/raw_event.rs"],
  [("range assertions", "measureme/src/raw_event.rs: new_interval, new_instant, new_integer")])
p("C03", "Interleaved stream writes are reconstructed exactly, at the addresses returned",
  "Whatever sequence of buffered and direct writes of whatever sizes is made to the streams of one profile, splitting the resulting file back into streams yields, for every stream, exactly the bytes written to it, in order, with nothing lost, duplicated or moved to another stream. The address returned for each write is the offset at which its bytes appear contiguously in the reconstructed stream. Every page stays non-empty and within the documented maximum size.",
  ["inputs", "histories"], "all sequences of writes (sizes from 0 to several maximum pages) over the three streams sharing one backing store, including flushes and dropping the sinks in any order",
  "Unit tests write a fixed family of chunk sizes to one or two in-memory sinks; page-boundary coincidences depend on the exact sizes and history.",
  ["measureme/src/serialization.rs"],
  [("buffered write", "measureme/src/serialization.rs: SerializationSink::write_atomic"), ("direct write", "measureme/src/serialization.rs: SerializationSink::write_bytes_atomic"), ("page framing", "measureme/src/serialization.rs: write_page, flush, Drop"), ("reassembly", "measureme/src/serialization.rs: split_streams")],
  state=[("buffer/addr", "bytes not yet paged out and next stream address", "measureme/src/serialization.rs: SerializationSinkInner")])
p("C04", "Splitting a paged file concatenates each stream's pages in order",
  "For every well-formed sequence of pages, splitting returns for each stream the concatenation of the contents of its pages in file order, and has no entry for a stream that has no page.",
  ["inputs"], "all page sequences (any tags, any lengths, any contents) within the bound",
  "One unit test runs the splitter over data produced by the writer itself; arbitrary tag interleavings and lengths using all length bytes are not reached.",
  ["measureme/src/serialization.rs"],
  [("split_streams", "measureme/src/serialization.rs: split_streams"), ("PageTag::try_from", "measureme/src/serialization.rs")])
p("C05", "Strings in the string table read back as the concatenation of their parts",
  "A string allocated from any sequence of literal pieces and references to earlier strings reads back as the concatenation of the pieces and of the referenced strings' contents, however deeply nested, wherever in the table it is stored and whatever else is stored around it. All ways of reading it (owned, borrowed or appended to a buffer) give the same text.",
  ["inputs", "histories"], "all component sequences and piece contents (any text free of the terminator byte), all table layouts reachable by the preceding allocations",
  "Unit tests allocate a few fixed strings; the reader has fast paths that depend on the exact position and length of an entry, which only particular layouts hit.",
  ["measureme/src/stringtable.rs", "decodeme/src/stringtable.rs"],
  [("component serialisation", "measureme/src/stringtable.rs: SerializableString for [StringComponent], str; StringTableBuilder::alloc"), ("decoding", "decodeme/src/stringtable.rs: StringRef::to_string, write_to_string, StringTable::get")])
p("C06", "Virtual string ids resolve to exactly the string they were mapped to",
  "A virtual id that was mapped, singly or in bulk, to a concrete string resolves to that string's content everywhere it is used, ids that were not mapped do not resolve to any other string, and the mapping of one id never disturbs another id or the profile's metadata. Mapping an id outside the virtual range is refused.",
  ["inputs", "histories"], "all virtual ids, all concrete ids, all sequences of single and bulk mappings within the bound",
  "Tests map one or two small ids; bulk mapping, the reserved metadata id and out-of-range ids are not covered for all values.",
  ["measureme/src/stringtable.rs", "decodeme/src/stringtable.rs"],
  [("index entries", "measureme/src/stringtable.rs: map_virtual_to_concrete_string, bulk_map_virtual_to_single_concrete_string, serialize_index_entry"), ("index lookup", "decodeme/src/stringtable.rs: StringTable::new, StringTable::get"), ("StringId ranges", "measureme/src/stringtable.rs: StringId::new_virtual, is_virtual")])
p("C07", "String ids partition into virtual, metadata, invalid and address ids",
  "Every string id belongs to exactly one of the classes virtual, metadata, invalid and table address; converting a table address to an id and back is the identity for every representable address, and an id that is not a table address never converts to one. Ids survive storage in the file unchanged.",
  ["inputs"], "all 64-bit ids and addresses",
  "Tests check four constants (including the old 32-bit limits); the identity must hold over the full 64-bit range, including overflow at the top.",
  ["measureme/src/stringtable.rs", "measureme/src/event_id.rs"],
  [("StringId conversions", "measureme/src/stringtable.rs: StringId::{from_addr,to_addr,is_virtual,new,as_u64}")])
p("C08", "Event ids split back into their label and arguments",
  "An event id built from a label and any number of arguments, all drawn from the documented text grammar, is presented by the reader as exactly that label and exactly those arguments in order. Text outside the grammar is reported as a parse error for that event instead of being silently altered or aborting the reader.",
  ["inputs"], "all labels and argument lists over the grammar, any number of arguments and any text including whitespace and non-ASCII characters",
  "Unit tests parse six literal strings with at most two arguments; control characters, whitespace controls, multi-byte characters and many arguments are not covered.",
  ["decodeme/src/event.rs", "measureme/src/event_id.rs", "decodeme/src/lib.rs"],
  [("grammar parser", "decodeme/src/event.rs: Event::parse_event_id, Parser"), ("builder", "measureme/src/event_id.rs: EventIdBuilder")])
p("C09", "A file is accepted exactly when its header is the expected one",
  "Reading a header succeeds exactly when the data is long enough and starts with the expected magic bytes, and returns the stored format version and the remaining bytes unchanged; every header the writer emits is accepted with the current version. Stripping a header removes exactly the header.",
  ["inputs"], "all byte sequences of any length up to the bound, all expected magics",
  "Unit tests corrupt one byte; every byte position, every version and every short length must be decided.",
  ["measureme/src/file_header.rs"],
  [("write_file_header/verify_file_header/read_file_header", "measureme/src/file_header.rs")])
p("C10", "Unusable profile files are reported as errors, not crashes or wrong data",
  "Opening a profile that is too short to hold its headers, has the wrong magic bytes, was written by an unsupported format version, or lacks any of its required streams yields an error and never a panic or a profile. A file with a supported header and all streams opens, and reports exactly the events it contains.",
  ["inputs", "crash_points"], "all header contents and versions, every subset of missing streams, every truncation inside the header",
  "No test opens a damaged file.",
  ["decodeme/src/lib.rs", "analyzeme/src/profiling_data.rs", "measureme/src/file_header.rs"],
  [("EventDecoder::new version dispatch", "decodeme/src/lib.rs: EventDecoder::new"), ("ProfilingData::new/from_paged_buffer", "analyzeme/src/profiling_data.rs"), ("magic checks", "measureme/src/file_header.rs: verify_file_header; decodeme/src/lib.rs")])
p("C11", "Event iteration is complete, ordered and double-ended",
  "Iterating a profile yields every recorded event exactly once in recording order from the front and in reverse order from the back; any mixture of steps from both ends meets in the middle without repeating or losing an event, and the reported remaining count is exact at every step. Indexing an event directly gives the same event as iterating to it, and indexing past the end is refused.",
  ["inputs", "histories"], "all event counts within the bound and all mixtures of forward and backward steps",
  "Tests only iterate whole profiles forward or backward once.",
  ["analyzeme/src/profiling_data.rs", "decodeme/src/lib.rs"],
  [("ProfilerEventIterator", "analyzeme/src/profiling_data.rs: Iterator/DoubleEndedIterator/ExactSizeIterator impls"), ("event index to address", "decodeme/src/lib.rs: EventDecoder, event_index_to_addr, num_events")])
p("C12", "The lightweight and full views of an event agree",
  "For every event, the lightweight view has the same thread, payload and kind/id as the full view, and expanding a lightweight event gives exactly the full event at the same position. Two lightweight events are equal exactly when they denote the same event data.",
  ["inputs"], "all events and event positions, all payload forms",
  "Tests use the full view nearly everywhere; agreement is never checked for all payloads.",
  ["decodeme/src/lightweight_event.rs", "decodeme/src/lib.rs", "analyzeme/src/profiling_data.rs"],
  [("decode_lightweight_event / decode_full_event", "decodeme/src/lib.rs"), ("LightweightEvent", "decodeme/src/lightweight_event.rs"), ("to_full_event", "analyzeme/src/profiling_data.rs")])
p("C13", "Event times, durations and containment follow wall-clock semantics",
  "The absolute time of a decoded event is the profile start plus its recorded offset to the nanosecond, the duration of an interval is its end minus its start, instants have no duration and integers no time. One interval contains another event exactly when the other's whole extent lies within its closed range.",
  ["inputs"], "all profile start times and all recorded offsets",
  "Tests compare a few handpicked times; carries between seconds and nanoseconds and equal endpoints need all values.",
  ["decodeme/src/event_payload.rs", "decodeme/src/event.rs", "decodeme/src/lightweight_event.rs"],
  [("Timestamp::from_raw_event", "decodeme/src/event_payload.rs"), ("contains/duration", "decodeme/src/event_payload.rs, decodeme/src/event.rs")])
p("C14", "Self time is the event's duration minus its direct children",
  "For every profile whose intervals nest properly per thread, each label's self time equals the sum over its events of the duration minus the durations of the directly nested events of the same thread, and each label's total time is the sum of the durations of its events (result-hashing events excepted, which only occur inside an already counted event). The self times of all labels add up to the summed durations of the outermost events, and the reported overall time is the sum over threads of the span from first start to last end.",
  ["inputs", "histories"], "all properly nested interval sequences on any number of threads within the bound, all timestamps including shared endpoints",
  "Tests analyse about ten fixed traces; nesting shape, shared endpoints, threads and label reuse combine freely.",
  ["analyzeme/src/analysis.rs"],
  [("perform_analysis", "analyzeme/src/analysis.rs: ProfilingData::perform_analysis")],
  state=[("per-thread stack", "open enclosing intervals while walking backwards", "analyzeme/src/analysis.rs: PerThreadState")])
p("C15", "Summary counters count each kind of event exactly",
  "For each label, the summary's hits, misses, invocations, blocked time, incremental load time and hashing time count exactly the events of the corresponding kinds: cache hits count as invocations but not misses, queries and generic activities count as invocations and misses, blocked events add to blocked time, and nested work inside loading or hashing is not counted as loading or hashing. Artifact sizes are added up per artifact name.",
  ["inputs", "histories"], "all sequences of events of all kinds (known and unknown) with all durations and values within the bound",
  "Tests cover single examples of some of the kinds and never the combination with nesting.",
  ["analyzeme/src/analysis.rs"],
  [("perform_analysis per-kind branches", "analyzeme/src/analysis.rs"), ("ArtifactSize", "analyzeme/src/analysis.rs")])
p("C16", "Collapsed stacks attribute every nanosecond to the right call stack",
  "The collapsed-stack output assigns to every distinct chain of enclosing events (root first) the self time of the innermost event summed over all occurrences, in the thread's own stack. Every chain is rooted in one entry for the program itself, which gets the time of each thread, from its first to its last interval, that no interval covers, so that all values together add up to the time the threads took. The flame graph shows every chain, and every beginning of one, with the time of all chains it begins.",
  ["inputs", "histories"], "all properly nested interval sequences on any number of threads within the bound",
  "Three fixed traces are tested.",
  ["analyzeme/src/stack_collapse.rs", "stack_collapse/src/main.rs", "flamegraph/src/main.rs"],
  [("collapse_stacks", "analyzeme/src/stack_collapse.rs: collapse_stacks, PerThreadState")])
p("C17", "Collapsed threads never share a lane while both are active",
  "When the trace exporter collapses threads onto shared lanes, every thread that has interval events gets exactly one lane, two different threads share a lane only if their active spans (from the start of the first to the end of the last interval) are disjoint, and no more lanes are used than there are threads active at the same moment at most. Without collapsing, every event keeps its own thread id.",
  ["inputs", "histories"], "all sets of per-thread spans within the bound",
  "No test covers lane assignment.",
  ["crox/src/main.rs"],
  [("generate_thread_to_collapsed_thread_mapping", "crox/src/main.rs")])
p("C18", "Chrome trace export carries every interval with its true time and length",
  "The exported trace contains exactly one complete event per recorded interval whose length reaches the configured minimum, with its label, kind, thread, arguments, its start in microseconds since the Unix epoch and its duration in microseconds, and no event for shorter ones; instants and integers do not appear as intervals. Given a directory, the trace has every profile in it exactly once, and nothing else of it. The exported processes are described by their process ids, names from their command lines and start order. The output is well-formed JSON whatever characters labels and arguments contain.",
  ["inputs", "configurations"], "all interval events and all minimum-duration settings within the bound",
  "No test covers the exporter.",
  ["crox/src/main.rs"],
  [("Event serialisation and filtering", "crox/src/main.rs: main, event_to..., get_args")])
p("C19", "A diff reports change minus base for every label of either profile",
  "Diffing two summaries yields exactly one entry for each label occurring in either, whose every time and count is the value in the changed profile minus the value in the base profile, with an absent label counting as zero; artifact sizes are diffed likewise, and the total time change is the difference of the totals. Percentages are relative to a non-zero base. What is printed (or written as JSON) are these entries, ordered by the magnitude of the change of self time, without the excluded labels.",
  ["inputs"], "all pairs of summaries within the bound, all durations and counts",
  "The diff code has no tests beyond duration formatting.",
  ["summarize/src/diff.rs", "analyzeme/src/analysis.rs"],
  [("calculate_diff", "summarize/src/diff.rs"), ("QueryData - QueryData", "summarize/src/diff.rs, analyzeme/src/analysis.rs: invert, sub")])
p("C20", "Signed durations behave like integers of nanoseconds",
  "Signed durations subtract (and so negate and add) and compare exactly like the signed nanosecond counts they stand for, with zero having a single representation: equality, ordering and the printed sign agree with the arithmetic for every value of less than 2^63 nanoseconds.",
  ["inputs"], "all representable durations of either sign",
  "Unit tests check a dozen constant pairs.",
  ["summarize/src/diff.rs"],
  [("SignedDuration", "summarize/src/diff.rs: Ord, Sub, Add, From, Debug")])
p("C21", "Aggregated profiles report true extremes and exact sample spacing",
  "Aggregating single-threaded profiles with the same sequence of events takes, for every two consecutive points (starts, ends and instants) of the program's run, the exact time between them in each profile. It reports the ten smallest of the minima over all profiles, the ten largest of the maxima, and the ten smallest and largest spreads (maximum minus minimum) with the number of intervals that have each value, or, where there is just one, the events it lies between. Profiles whose events differ, and several threads, are refused.",
  ["inputs"], "all measurement values and orders within the bound",
  "No test covers aggregation.",
  ["summarize/src/aggregate.rs"],
  [("Extrema", "summarize/src/aggregate.rs: Extrema, ExtremaSources"), ("points and intervals", "summarize/src/aggregate.rs: SamplePoints, SampleIntervals, AggregatedSampleIntervals, aggregate_profiles")])
p("C22", "Truncating a profile keeps a readable, correct prefix",
  "Truncating a profile keeps its header, the first page of its event data and all of its string data unchanged, so that the result still opens and reports exactly the events of that page with all their texts. This holds for every format version the reader supports; a file that is not a profile or has a later format version is refused and left untouched.",
  ["inputs", "configurations"], "all profiles within the bound of every format version the reader accepts",
  "The editor tool has no tests.",
  ["mmedit/src/main.rs"],
  [("truncate", "mmedit/src/main.rs")])
p("C23", "Profiles in the previous format version read as the same events",
  "A profile written in the previous supported format version decodes to the same kinds, ids, threads, payloads and texts as the same recording in the current version, including events without a known label.",
  ["inputs"], "all events expressible in the older format, all older string tables within the bound",
  "Two recorded sample files are compared; the id translation must hold for every id.",
  ["decodeme/src/lib.rs", "decodeme/src/stringtable.rs", "analyzeme/src/profiling_data.rs"],
  [("old file format decoding", "decodeme/src/lib.rs, analyzeme/src/file_formats")])
p("C24", "Concurrent recording loses, tears and reorders nothing",
  "When several threads record events and strings on one profiler at the same time, every event appears exactly once and intact, each thread's events keep their order, every string id still resolves to the string that was stored under it, and no interleaving deadlocks.",
  ["schedules"], "all interleavings of the recording threads at their synchronisation operations within the bound",
  "The threaded test runs whatever few schedules the machine happens to produce.",
  ["measureme/src/serialization.rs", "measureme/src/stringtable.rs", "measureme/src/profiler.rs"],
  [("sink lock", "measureme/src/serialization.rs: SerializationSink.data Mutex"), ("shared page store lock", "measureme/src/serialization.rs: SharedState")],
  state=[("sink buffer and address", "guarded by the sink lock", "measureme/src/serialization.rs: SerializationSinkInner")])
p("C25", "Profiler sessions record what the program did, when it did it",
  "A finished profile contains one event for each recorded instant, integer and completed interval (scoped, detached or with a replaced event id), in completion order, stamped with the clock readings taken at start and completion, and with the thread, kind and id given; opening the path the profiler was given reads it, whatever was there before. The profile's metadata gives back the start time, process id and the full command line whatever characters the arguments contain.",
  ["histories", "inputs"], "all sequences of profiler calls within the bound, all non-decreasing clock readings, all command lines within the bound",
  "End-to-end tests use the real clock and the test binary's own plain command line.",
  ["measureme/src/profiler.rs", "measureme/src/counters.rs", "decodeme/src/lib.rs", "decodeme/src/stringtable.rs"],
  [("TimingGuard/DetachedTiming", "measureme/src/profiler.rs"), ("metadata record", "measureme/src/profiler.rs: Profiler::with_counter; decodeme/src/lib.rs: Metadata")])
p("C26", "Partial and interrupted file writes do not change the profile",
  "If the operating system accepts only part of a write or interrupts it, the finished profile file has exactly the same contents as if every write had been accepted whole.",
  ["fault_sequences"], "all sequences of short and interrupted writes within the bound",
  "Tests run on a file system that accepts every write whole.",
  ["measureme/src/serialization.rs", "measureme/src/file_header.rs", "measureme/src/profiler.rs"],
  [("write_all on the backing storage", "measureme/src/serialization.rs: BackingStorage, write_page")])
p("C27", "Summaries show every column that has data and filter by the given share",
  "For a profile with a non-zero total time the summary table lists labels by descending self time with their times, counts and shares, shows each optional column exactly when some label has a non-zero value in it, and with a minimum share lists exactly the labels reaching it; a share outside of 0 to 100 percent is refused. Summaries written as JSON carry the same values, and read back as inputs to a diff give the same result as the profile.",
  ["inputs", "configurations"], "all summaries within the bound and all filter settings",
  "The command-line tool has no tests.",
  ["summarize/src/main.rs"],
  [("summarize column selection and filter", "summarize/src/main.rs: summarize"), ("JSON input", "summarize/src/main.rs: process_results, write_results_json")])
p("C28", "The event viewer shows exactly the selected events with relative times",
  "Viewing a profile prints every event, or every event of the selected thread, exactly once and in order, with its kind, label, arguments and thread, the start and end of an interval and the time of an instant in microseconds since the earliest event of the profile, and the value of an integer.",
  ["inputs", "configurations"], "all event sequences and thread filters within the bound",
  "The viewer has no tests.",
  ["mmview/src/main.rs"],
  [("main/print_event/system_time_to_micros", "mmview/src/main.rs")])
p("C29", "Hardware counters count exactly what happened since they were created, or are refused",
  "A counter asked for by one of the four documented names is that counter, or an error that says why: any other name is refused, wall-time is always available, and the instruction counters are created exactly when the processor is one of those documented (AMD since K8, Intel; for interrupts Intel since Sandy Bridge) and the kernel lets user space read a 48-bit register for every event they need. They ask the kernel for user-space events of the calling thread only, with the event code documented for that processor. Every event of a profiler with such a counter carries the number of instructions, minus interrupts where the name says so, since the counter was created, for any content of the registers the kernel assigned and across sign and carry; the profile names the counter. Neither any processor nor any answer of the kernel leads to a panic.",
  ["inputs", "configurations"], "all processor versions, kernel answers and register contents within the bound",
  "Tests run on the wall clock only: hardware counters need a processor and a kernel that offer them.",
  ["measureme/src/counters.rs", "measureme/src/profiler.rs"],
  [("Counter::by_name/CpuModel::detect/hw::Counter/since_start", "measureme/src/counters.rs"), ("Profiler::with_counter", "measureme/src/profiler.rs")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")

"""Which harnesses decide which property, and within what bounds."""
CRATES = {"path_packages": ["measureme", "decodeme", "analyzeme", "sym"]}

ASSUMPTIONS = [
    "rustc 1.90 compiles the code to LLVM IR faithfully; the IR is executed with 64-bit little-endian x86-64 semantics, overflow checks and debug assertions on",
    "the executor's models of the allocator, the POSIX file calls, clocks, random seeds and LLVM intrinsics match the real ones (counterexamples are replayed natively)",
    "hash maps use a fixed seed; allocation never fails",
]


def J(h, c="core", **k):
    return dict(h=h, c=c, **k)


def both(*jobs):
    """The same harnesses on the build with and on the one without debug assertions and overflow checks."""
    return list(jobs) + [dict(j, c=j["c"] + "+plain") for j in jobs]


PROPS = {
    "C01": dict(
        jobs=both(J("h_c01_interval"), J("h_c01_instant"), J("h_c01_integer"), J("h_c01_layout")),
        bounds="one event; every 64-bit kind and id, every 32-bit thread id, every start <= end up to 2^48-3, every instant and integer up to 2^48-1",
    ),
    "C02": dict(
        jobs=both(J("h_c02_interval"), J("h_c02_instant"), J("h_c02_integer")),
        bounds="one event; every 64-bit start, end, time and value",
    ),
    "C13": dict(
        jobs=[J("h_c13_payload"), J("h_c13_instant"), J("h_c13_contains", split={"form1": 3, "form2": 3})],
        bounds="one event (two for containment); every start <= end up to 2^48-3 ns, profile start any time from the epoch to 2^33 s with every nanosecond; containment: every pair of payload forms with offsets of up to 5 s in every nanosecond",
    ),
    "C03": dict(
        jobs=[
            J("h_c03_two_writes", split={"method0": 2, "method1": 2}, cost=20, wide=True, secs=360),
            J("h_c03_sizes", cost=100),
            J("h_c03_three_writes", split={"method0": 2, "method1": 2, "method2": 2}, tier="thorough", cost=90, wide=True, secs=360),
            J("h_c03_interleaved", split={"stream1": 2, "method0": 2, "method1": 2}, split_deep={"stream0": 2, "stream1": 2, "method0": 2, "method1": 2}, cost=40, wide=True, secs=360),
            J("h_c03_flush", split={"stream0": 2, "stream1": 2, "method0": 3, "method1": 3}, tier="thorough", cost=60, wide=True, secs=360),
            J("h_c03_pages", split={"stream1": 2, "method0": 3, "method1": 3}, split_deep={"stream0": 2, "stream1": 2, "method0": 3, "method1": 3}, cost=10, wide=True, secs=360),
        ],
        bounds="three writes of up to nine concrete sizes by either way, both ends and the middle of each; two writes of any length up to 3 maximum pages (786 431 bytes) to one stream, three of up to 262 143 bytes to two streams, by either direct or copying write; page structure of the file: two writes of any kind, including the Write adapter and flushing, of up to 393 215 bytes; every byte of every write, all contents symbolic",
        bounds_deep="as quick, and three writes of up to 393 215 bytes to one stream, three writes of up to 262 143 bytes by any of three ways with flushes to two streams; page structure with writes of up to 786 431 bytes",
    ),
    "C04": dict(
        jobs=[J("h_c04_split", split_deep={"tag0": 4, "tag1": 4}, cost=30, wide=True, secs=300), J("h_c04_some_sizes", cost=3)],
        bounds="up to 3 pages of any stream, any length from 1 to the maximum 262 144, any contents; every byte of the result; up to 3 pages of concrete sizes up to 2^24 + 2, both ends and the middle of each",
        bounds_deep="up to 4 pages of any stream, any length from 1 to the maximum 262 144, any contents; every byte of the result",
    ),
    "C05": dict(
        jobs=[
            J("h_c05_where", split={"halves": 6}, cost=40, wide=True, secs=400),
            J("h_c05_ref_bytes"), J("h_c05_nested", cost=5), J("h_c05_sizes", cost=3), J("h_c05_unicode", cost=5), J("h_c05_many"), J("h_c05_lengths", cost=3), J("h_c05_long", cost=6),
            J("h_c05_nested", c="core+plain", cost=5),
        ],
        bounds="a literal and a composite at every table position up to 786 431; positions whose reference bytes are all marker bytes; three strings of up to 0, 2 and 2-3 components of 0 or 1 ASCII characters or references; literals of up to 39 bytes next to references; up to 2 characters of any width; strings of every length up to 35 with any first and last character; pieces of 14 lengths up to 300 000; 300 components; nesting depth 100",
        bounds_deep="as quick with up to 3 components per string, literals of up to 79 bytes, up to 3 characters of any width, strings of every length up to 69",
    ),
    "C06": dict(
        jobs=[J("h_c06_mapping", cost=5), J("h_c06_any_id", split={"bulk": 2}, cost=65), J("h_c06_large_bulk", cost=5), J("h_c06_refused"), J("h_c06_pages")],
        bounds="two single mappings and one bulk mapping of up to 3 ids out of seven representative ids in four orders, every one looked up, also through another string; any single id of the virtual range (as symbol) mapped and looked up; bulk mappings larger than a buffer and of 16 700 ids; every 64-bit id for refusal",
    ),
    "C07": dict(
        jobs=both(J("h_c07_classes"), J("h_c07_from_addr"), J("h_c07_stored"), J("h_c07_decode")),
        bounds="every 64-bit id and address",
    ),
    "C08": dict(
        jobs=[J("h_c08_parse"), J("h_c08_built", split={"args": 5, "label_0_width": 4}, split_deep={"args": 9, "label_0_width": 4}, cost=7), J("h_c08_many", cost=8)],
        bounds="every ASCII text of up to 4 bytes as event id; built ids: label and first argument of 1 or 2 characters of the grammar of every width (second: 1 or 3 bytes), 0 to 4 arguments, plain and virtual ids; ten numbers of arguments up to 300",
        bounds_deep="every ASCII text of up to 6 bytes as event id; built ids as in quick with 0 to 8 arguments",
    ),
    "C09": dict(
        jobs=both(J("h_c09_check"), J("h_c09_written")),
        bounds="every byte sequence of 0 to 12 bytes against each of the four magics; headers written through three kinds of writers, followed by up to 3 arbitrary bytes",
        bounds_deep="every byte sequence of 0 to 23 bytes against each of the four magics; headers written through three kinds of writers, followed by up to 3 arbitrary bytes",
    ),
    "C10": dict(
        jobs=[J("h_c10_top"), J("h_c10_streams", cost=5), J("h_c10_missing"), J("h_c10_versions"), J("h_c10_paths"), J("h_c10_top", c="core+plain"), J("h_c10_missing", c="core+plain")],
        bounds="every first eight bytes of the file and of each stream and every shorter length; every subset of the streams in every order, in both supported formats; every version in front of the streams of either format, also in the streams themselves; path lookup for six forms of path with no, empty, short, old and whole files",
    ),
    "C11": dict(
        jobs=both(J("h_c11_mixed"), J("h_c11_skip"), J("h_c11_index"), J("h_c11_jumps", cost=10)) + [J("h_c11_far", cost=6)],
        bounds="up to 3 events with any values, every mixture of forward and backward steps up to two past the end, both views; three steps or jumps of up to 3 events from either end over 4 events and the rest drained in seven ways; 66 000 events; every 64-bit index",
        bounds_deep="up to 5 events with any values, every mixture of forward and backward steps up to two past the end, both views; three steps or jumps of up to 3 events from either end over 4 events and the rest drained in seven ways; 66 000 events; every 64-bit index",
    ),
    "C12": dict(
        jobs=[J("h_c12_views"), J("h_c12_equal")],
        bounds="two events of any payload form, any thread, times of up to 5 s in every nanosecond, any indices",
    ),
    "C14": dict(
        jobs=[
            J("h_c14_shape", split={"label0": 3, "label1": 3}, split_deep={"label0": 3, "label1": 3, "label2": 3}, cost=30),
            J("h_c14_deep", cost=56), J("h_c14_seconds", split={"start0_n": 3}, cost=30), J("h_c14_extremes"), J("h_c14_tower"),
        ],
        bounds="4 intervals of three labels on up to two threads, any nesting, equal ends included, any nanosecond within a second; 6 nested events on one thread within 65 microseconds; 201 nested intervals; durations of up to 2^48 ns around the carries of seconds",
        bounds_deep="as quick with 5 intervals, 7 nested events",
    ),
    "C15": dict(
        jobs=[J("h_c15_kinds", split_deep={"kind0": 10, "kind1": 10}, cost=17), J("h_c15_artifacts"), J("h_c15_labels"), J("h_c15_names"), J("h_c15_seconds", cost=9)],
        bounds="3 events of each of the ten kinds, any nesting on one thread, any nanosecond within a second; two of each interval kind around the carries of seconds up to 2^48 ns; up to 3 artifact sizes of two names, every value; kinds that are almost, or on the wrong form of event, one of the seven predefined ones; 36 pairs of labels that look almost the same",
        bounds_deep="as quick with 4 events",
    ),
    "C16": dict(
        jobs=[J("h_c16_shape", split_deep={"label0": 3, "label1": 3}, cost=35), J("h_c16_deep", cost=31), J("h_c16_others"), J("h_c16_labels"), J("h_c16_tower"), J("h_c16_seconds", cost=5), J("h_c16_extremes"), J("h_c16_output", c="stack_collapse"), J("h_c16_flame", c="flamegraph")],
        bounds="4 intervals of three labels on two threads, any nesting, any nanosecond within a second; 6 intervals on one thread; durations of up to 2^48 ns around the carries of seconds; instants and integers between them; pairs of labels that look almost the same; 201 nested intervals; the output file of stack_collapse for three intervals in three arrangements with any steps of 100 to 199 ns; the picture of flamegraph for three intervals in four arrangements with three sets of times",
        bounds_deep="as quick with 5 intervals on two threads and 7 on one",
    ),
    "C17": dict(
        jobs=[J("h_c17_lanes", c="crox", split={"thread1": 2, "thread2": 3, "thread3": 4}, cost=60), J("h_c17_forms", c="crox", cost=9), J("h_c17_files", c="crox")],
        bounds="4 intervals on up to four threads, in every assignment, any order (four threads: in the order of their starts), starts up to 30 us and lengths of up to 9 us in every nanosecond; three events of every form on up to three threads; two profiles with two threads each",
        bounds_deep="as quick with 5 intervals, and 4 events of every form",
        assumptions=["the process exit of a refused command line is treated like a panic"],
    ),
    "C18": dict(
        jobs=[J("h_c18_times", c="crox", split={"carries": 2}, cost=40), J("h_c18_select", c="crox"), J("h_c18_minimum", c="crox", cost=17), J("h_c18_texts", c="crox"), J("h_c18_process", c="crox"), J("h_c18_dir", c="crox"), J("h_c18_years", c="crox", split={"from": 6}, cost=15)],
        bounds="one interval with any start and end within a second, and any whole seconds (3-6, 10-90) around the carries; three events of every form on any four-digit threads with any three-digit minimum duration and any length around it; nine minimum durations up to 2^48 ns and any length within two microseconds of each; kind, label or argument of any character (one byte: two characters) of every width, up to two arguments, or twelve; profiles of any year and events hours into them; two profiles with every combination of process descriptions; a directory of up to three profiles and other files, with or without one given by name",
    ),
    "C19": dict(
        jobs=[J("h_c19_labels", c="summarize"), J("h_c19_values", c="summarize"), J("h_c19_output", c="summarize", cost=15), J("h_c19_json", c="summarize", split={"both": 3}, cost=15)],
        bounds="three labels and artifacts, each in either, both or neither, with any times of up to 3 s and 32-bit counts; every quantity of one label with times of up to 300 000 s in every nanosecond and counts up to 2^40; printed tables for three sets of values, every presence of three labels, four exclusions; JSON of one label with any of 16 times and 10 whole-second differences",
    ),
    "C20": dict(
        jobs=both(J("h_c20_arithmetic", c="summarize"), J("h_c20_signs", c="summarize"), J("h_c20_order", c="summarize"), J("h_c20_printed", c="summarize")),
        bounds="every pair of durations of up to 2^31 s in every nanosecond; comparisons of every two differences of durations of up to 2^20 s, or of up to a second more than four others, up to 2^64 ns; printed sign for pairs of ten values",
    ),
    "C21": dict(
        jobs=[J("h_c21_shapes", c="summarize", split={"shape": 5}, cost=20), J("h_c21_ten", c="summarize", split={"at": 3}, cost=20), J("h_c21_refused", c="summarize")],
        bounds="two profiles of five shapes of up to 8 points (every way points follow each other, up to depth 4), one spacing anywhere in 100 to 999 ns, or around the carry of seconds, or 77 s, at every place, or nothing, six differences between the profiles of up to 9 s; three profiles of 13 points with one spacing anywhere in 100 to 400 ns among more than ten values; ten kinds of differing programs, in up to four profiles",
        outside="several independently symbolic spacings at once; more than 13 points",
    ),
    "C22": dict(
        jobs=[J("h_c22_pages", c="mmedit", cost=15, wide=True, secs=300), J("h_c22_some_sizes", c="mmedit", cost=9), J("h_c22_reads", c="mmedit"), J("h_c22_refused", c="mmedit")],
        bounds="files of both formats with up to 3 pages of any stream, any lengths up to the maximum page and any contents, every byte of the result; up to 3 pages of concrete sizes up to 2^24 + 2; 1-2 events on the first page and 0-2 on a second; every header of up to 8 bytes",
        bounds_deep="as quick with up to 4 pages",
    ),
    "C23": dict(
        jobs=[J("h_c23_events"), J("h_c23_texts"), J("h_c23_vertical_tab"), J("h_c23_reference_first")],
        bounds="two events of any form with any values and times, written in both formats; event ids and kinds of any ASCII text of up to 3 characters (vertical tab excepted), plain, in composites of up to 4 components, through virtual ids; ids that resolve to nothing",
        bounds_deep="as quick with texts of up to 4 characters",
    ),
    "C24": dict(
        jobs=[
            J("h_c24_recording", split={"op00": 7}, split_deep={"op00": 7, "op01": 7}, schedule=True, repeat=3000, cost=60),
            J("h_c24_three", split={"op0": 7}, schedule=True, repeat=3000, cost=60),
            J("h_c24_one_stream", split={"method0": 3}, schedule=True, repeat=1000, cost=40, wide=True, secs=350),
            J("h_c24_two_streams", split={"method0": 3}, schedule=True, repeat=1000, cost=30, wide=True, secs=350),
            J("h_c24_two_writes", split={"method0": 2, "method1": 2, "prefill": 2, "halves0": 2}, schedule=True, repeat=1000, cost=60, tier="thorough"),
            J("h_c24_drop", schedule=True, repeat=1000, opts_deep=["--preempt", "3"], cost=65),
        ],
        bounds="two threads with two operations of seven kinds each, three threads with one each, any values; two threads writing chunks of any length up to 262 143 bytes to the same or to two streams in three ways, with the buffer empty or almost full; a sink dropped while another thread writes. All interleavings at atomic operations with at most two preemptions (any number of switches where a thread waits or ends), sequentially consistent memory",
        bounds_deep="as quick, and two threads with two writes each to one stream, dropped sinks with up to three preemptions",
    ),
    "C25": dict(
        jobs=[
            J("h_c25_going_on"), J("h_c25_paths"),
            J("h_c25_session", split={"step0": 8}, split_deep={"step0": 8, "step1": 8}, cost=8), J("h_c25_seconds", split_deep={"step0": 8, "from": 3}, cost=3),
            J("h_c25_start_time", cost=12), J("h_c25_args", cost=10), J("h_c25_raw_args"),
        ],
        bounds="5 calls of eight kinds with any thread ids, values and non-decreasing clock readings within a second, 2 calls with any second and nanoseconds around the carries; start times with every value of each of the digits; an argument of up to two characters of any width and one with all kinds of characters; arguments that are no text; 14 forms of path, with and without an older profile there",
        bounds_deep="as quick with 6 calls (3 around the carries of seconds)",
    ),
    "C26": dict(
        jobs=[J("h_c26_pages", cost=31, wide=True, secs=400), J("h_c26_profile", cost=94)],
        bounds="up to 2 interrupted or short writes anywhere, of any accepted length; one stream of any length up to 262 143 bytes with symbolic contents, and a whole profile of every kind of record",
        bounds_deep="as quick with up to 3 faults for the stream",
    ),
    "C27": dict(
        jobs=[J("h_c27_columns", c="summarize", cost=7), J("h_c27_masks", c="summarize", cost=20), J("h_c27_filter", c="summarize"), J("h_c27_refused", c="summarize"), J("h_c27_json", c="summarize", split={"more": 5}, cost=20)],
        bounds="three labels with any one of hits, blocked, load and hashing time, three sets of self times; two labels with every set of them, beside one with nothing but hits; five distributions, eleven thresholds at, below and above the shares; eleven thresholds that are none; JSON of two labels, one with any of 64 times, every kind of other time, read back by a diff",
        outside="symbolic percentages (their text is produced from floats): shares are taken from fixed sets",
    ),
    "C28": dict(
        jobs=[J("h_c28_select", c="mmview"), J("h_c28_long", c="mmview", cost=26), J("h_c28_texts", c="mmview", split={"args": 4}, cost=30)],
        bounds="three events of every form with any times within 1 ms, any four-digit threads, no filter or any four-digit one, any of the events the earliest; times up to 281 473 s after the first, any within a millisecond and seven around the carries of seconds; label of two and arguments of one character of any width, up to three arguments, five filters of other lengths",
    ),
    "C29": dict(
        jobs=[J(h, hw=True, cost=k) for h, k in [("h_c29_names", 1), ("h_c29_metadata", 1), ("h_c29_detect", 1), ("h_c29_vendor", 8), ("h_c29_refused", 4), ("h_c29_read", 25), ("h_c29_events", 1)]],
        bounds="every version word of AMD and Intel processors, every vendor one byte away from theirs; the kernel's refusal with six errors, every capability word and register width, four registers; every 48-bit content of the register of instructions and every count since then that does not pass its top, six contents of the register of interrupts and up to 65 535 since then; three events with every 32-bit count and no or some interrupts; unknown names: 10 fixed, every known one with one character replaced, added, or cut off",
        bounds_deep="as quick with every 48-bit content of both registers and every count since then",
        outside="a kernel that changes the shared page while it is read; threads other than the one that created the counter (documented as unsupported)",
        assumptions=["perf_event_open, the page it shares, cpuid and rdpmc answer as the harness says; the native replays take them from a copy of the program in which those instructions are replaced"],
    ),
}

NOT_APPLICABLE = {}

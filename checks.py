"""What each property's check runs: harness entries, their bounds, and what lies outside."""


def E(entry, **k):
    return dict(k, entry=entry)


CHECKS = {
    "C01": {
        "entries": [
            E("h_c01_seq", params={"ops": 3}, shards=4, thorough={"params": {"ops": 3}}),
            E("h_c01_step"),
            E("h_c02_many"),
        ],
        "bounds": "sequences of 3 updates on two clones, each an increment, an integer addition of any u64 or a float addition of any f64 bit pattern; one further update from the state left by any integer total and any accepted float amount; a fixed history of 30 updates, one whole amount of 40 bits and one fractional amount in it arbitrary",
        "outside": "longer histories, except through the one-step check from an arbitrary state; concurrent readers are C04",
    },
    "C02": {
        "entries": [
            E("h_c02_accept", covers=["end", "accepted", "rejected"]),
            E("h_c02_integral", params={"ops": 3}, thorough={"params": {"ops": 4}}),
            E("h_c02_fraction", params={"ops": 3}, thorough={"params": {"ops": 4}}),
            E("h_c02_large"),
            E("h_c02_big"),
            E("h_c02_wrap"),
            E("h_c02_edge"),
            E("h_c02_many", thorough={"params": {"ops": 60}}),
            E("h_c02_long"),
        ],
        "bounds": "acceptance: any f64 bit pattern added to a counter holding any u64; integral exactness: 3 (4) updates of 52-bit amounts on two clones; fractional exactness: 3 (4) amounts on a 40-bit grid of 1/1024; one large addition beyond 2^53 within one rounding; the wrap of the integer total: any total within 256 of 2^64; a fixed history of 30 (60) updates on two clones with one arbitrary 40-bit whole amount and one arbitrary multiple of 1/1024, read after each update; 70,000 fixed updates before an arbitrary one",
        "outside": "longer sequences of additions; amounts finer than 1/1024 are covered one at a time only",
    },
    "C03": {
        "entries": [E("h_c03_seq", params={"ops": 4}, thorough={"params": {"ops": 5}}), E("h_c03_set", covers=["end", "before the epoch"], thorough={"params": {"nanos": 7}}), E("h_c03_many"), E("h_c03_long")],
        "bounds": "4 (5) operations out of set, add, sub, inc, dec with any f64 bit patterns on two clones, from any initial value; set to the current time for any clock second within the 64-bit range and 6 (7) sub-second parts; a fixed history of 40 updates with arbitrary ones in it; 70,000 fixed operations before arbitrary ones",
        "outside": "longer sequences: each operation depends on the current value only, which the first set makes arbitrary",
    },
    "C04": {
        "entries": [
            E("h_c04_counter", preempt=3, thorough={"params": {"updates": 2}, "preempt": 3, "shards": 8}),
            E("h_c04_counter", params={"threads": 3, "reads": 0}, preempt=1, shards=8, thorough={"params": {"threads": 3, "reads": 1}, "preempt": 2, "shards": 8}),
            E("h_c04_gauge", preempt=3, thorough={"params": {"updates": 2}, "preempt": 2, "shards": 8}),
            E("h_c04_gauge", params={"threads": 3, "reads": 0}, preempt=2, shards=8, thorough={"params": {"threads": 3, "reads": 1}, "preempt": 2, "shards": 8}),
            E("h_c04_inprogress", preempt=3, thorough={"params": {"threads": 3}, "preempt": 2}),
            E("h_c04_histogram", preempt=2, shards=8, thorough={"preempt": 3, "shards": 8}),
            E("h_c04_summary", preempt=2, shards=8, thorough={"preempt": 3, "shards": 8}),
            E("h_c04_expiry", params={"reads": 0}, preempt=3, thorough={"preempt": 5}),
            E("h_c04_expiry", params={"reads": 1}, preempt=2, thorough={"preempt": 3}),
        ],
        "bounds": "every interleaving, at the atomic operations and lock operations, with at most 2 or 3 preemptions, of two threads with one (thorough: two) update each and a reader, or of three threads with one update each; amounts: any multiple of 1/16 (counters: up to 65536, or any 40-bit whole amount; gauges: in [-128, 128), from any such initial value), observations: any multiple of 1/4 in [-8, 8); tracked code returning or panicking; two threads observing and one querying a summary while samples expire",
        "outside": "more preemptions, threads or updates; interleavings are sequentially consistent, compare_exchange_weak does not fail spuriously; the clock stands still during the concurrent part",
    },
    "C05": {
        "entries": [E("h_c05_time", thorough={"params": {"nanos": 7}}), E("h_c05_time_adds"), E("h_c05_inprogress", covers=["end", "panic"]), E("h_c05_many"), E("h_c05_time_many")],
        "bounds": "one wrapped closure per metric kind; any monotonic-clock second at both ends, 6 (7) sub-second parts; the closure returns or panics, nested once for in-progress tracking; and up to 12 nested or 20 successive trackings",
        "outside": "sub-second parts other than the listed ones",
    },
    "C06": {
        "entries": [
            E("h_c06_counts", params={"bounds": 3, "obs": 2}, thorough={"params": {"bounds": 3, "obs": 3}, "shards": 8}),
            E("h_c06_counts", params={"bounds": 4, "obs": 1}),
            E("h_c06_nan"),
            E("h_c06_order"),
            E("h_c06_many"),
            E("h_c06_many_obs"),
            E("h_c06_long"),
        ],
        "bounds": "3 requested bounds and 2 (3) observations of any non-NaN f64 including equal ones, infinities and both zeros, and 4 bounds with 1 observation; 16 scattered bounds and 20 observations with one bound or observation arbitrary, and 40 bounds with one observation of any f64; 5 fixed-position bounds in any order with 2 observations; one NaN observation in any position; 70,000 fixed observations before an arbitrary one",
        "outside": "more bounds or observations at once",
    },
    "C07": {
        "entries": [
            E("h_c07_build", params={"bounds": 4}, covers=["end", "built", "refused"], thorough={"params": {"bounds": 5}, "shards": 8}),
            E("h_c07_many", thorough={"params": {"bounds": 28}}),
            E("h_c07_generated"),
            E("h_c07_linear"),
            E("h_c07_linear_any"),
            E("h_c07_exponential"),
            E("h_c07_long"),
        ],
        "bounds": "4 (5) requested bounds of any f64 bit pattern; 16 (28) scattered bounds, one of them any f64 bit pattern; 40 generated bounds of fixed start and step; linear and exponential generation with starts and widths on a 12/8-bit grid, the telling factors, counts 0 to 3, 65 and 1,000 generated bounds of 7 fixed sorts, plus any f64 start and width for the first two",
        "outside": "exponential factors off the listed grid (floating-point pow has no exact symbolic meaning there)",
    },
    "C08": {
        "entries": [
            E("h_c08_merge", params={"members": 2, "bounds": 1, "obs": 2}),
            E("h_c08_many"),
            E("h_c08_merge", params={"members": 2, "bounds": 2, "obs": 1}, shards=6),
            E("h_c08_merge", params={"members": 3, "bounds": 1, "obs": 1}, thorough={"params": {"members": 3, "bounds": 2, "obs": 1, "telling": 1}, "shards": 8}),
            E("h_c08_long"),
        ],
        "bounds": "2 members with 2 bounds and 1 observation each or 1 bound and 2 observations each, 3 members with 1 bound and 1 observation each (thorough: 2 bounds); bounds and observations any non-NaN f64; 6 members of 8 scattered bounds and 6 observations each, one bound or observation arbitrary; 70 members, one observation arbitrary",
        "outside": "more members, bounds or observations at once",
    },
    "C09": {
        "entries": [
            E("h_c09_quantiles", params={"quantiles": 1, "samples": 4}, thorough={"params": {"quantiles": 1, "samples": 5}, "shards": 6}),
            E("h_c09_quantiles", params={"quantiles": 2, "samples": 2}, thorough={"params": {"quantiles": 3, "samples": 2}, "shards": 6}),
            E("h_c09_rank", params={"quantile bits": 16}, thorough={"params": {"quantile bits": 24}}),
            E("h_c09_rank", params={"any quantile": 1, "samples": 6}, thorough={"params": {"any quantile": 1, "samples": 8}}),
            E("h_c09_many", params={"forkaddr": 1}, thorough={"params": {"forkaddr": 1, "samples": 32}}),
            E("h_c10_long"),
        ],
        "bounds": "up to 4 (5) samples of any f64 bit pattern with 1 quantile, up to 2 with 2 (3) quantiles; up to 8 distinct samples with any quantile on a 16-bit (24-bit) grid, up to 6 (8) with any f64 quantile; 20 (32) samples, one of them and one quantile arbitrary; otherwise quantiles on the grid of eighths or one of 8 telling values (0, 1, the largest below 1, the smallest positive, thirds, 0.99, -0); histories of 10,000 samples, as for C10",
        "outside": "more arbitrary samples at once",
    },
    "C10": {
        "entries": [
            E("h_c10_window", params={"ops": 4}, shards=6, covers=["end", "sample", "reported", "all expired"], thorough={"params": {"ops": 5}, "shards": 8}),
            E("h_c10_window", params={"ops": 2, "any nanosecond": 1, "second bits": 32}, covers=["end", "sample", "reported", "all expired"]),
            E("h_c10_any"),
            E("h_c10_backwards", params={"ops": 4}),
            E("h_c10_merged", params={"any nanosecond": 1, "second bits": 16}),
            E("h_c10_many", covers=["end", "all expired"]),
            E("h_c10_long"),
        ],
        "bounds": "4 (5) operations, each observing or querying, at non-decreasing times of 5-bit seconds and 8 telling sub-second parts, any such window; one observation and one query at any 32-bit second and any nanosecond; any window up to Duration::MAX with one or two observations at any 61-bit second of either sign and any nanosecond; 4 operations under a clock moving either way across the epoch; two merged members; a fixed history of 48 samples with an arbitrary query; 10,000 samples with an arbitrary choice of the last query's time",
        "outside": "longer histories; clocks beyond 61-bit seconds",
    },
    "C11": {
        "entries": [
            E("h_c11_merge", params={"members": 2, "quantiles": 1, "samples": 1, "samples of others": 1}),
            E("h_c11_many", params={"forkaddr": 1}, thorough={"params": {"forkaddr": 1, "samples": 9}}),
            E("h_c11_merge", params={"members": 2, "quantiles": 1, "samples": 2, "samples of others": 1}, thorough={"params": {"members": 2, "quantiles": 2, "samples": 2, "samples of others": 1}, "shards": 8}),
            E("h_c11_merge", params={"members": 3, "quantiles": 1, "samples": 1, "samples of others": 1, "telling quantiles": 2}, shards=4),
            E("h_c11_long"),
        ],
        "bounds": "2 members with up to 2 and 1 samples and 1 (2) quantiles each, 3 members with 1 of each; samples any f64 bit pattern, quantiles as for C09; 4 members of 6 (9) samples each, one of them and the quantile arbitrary; 5 members of 1,500 samples, one of them mostly expired",
        "outside": "more members or samples",
    },
    "C12": {
        "entries": [
            E("h_c12_new", covers=["end", "accepted", "refused"]),
            E("h_c12_build", covers=["end", "built", "refused"]),
            E("h_c12_order"),
        ],
        "bounds": "any f64 bit pattern as a quantile; a summary of 3 quantiles one of which is arbitrary; any pair of accepted quantiles",
        "outside": "",
    },
    "C13": {
        "entries": [
            E("h_c13_parts", params={"chars": 2, "wide": 1}, shards=2, covers=["end", "accepted", "refused"], thorough={"params": {"chars": 3, "wide": 3}, "shards": 8}),
            E("h_c13_parts", params={"chars": 1, "wide": 3}, covers=["end", "accepted", "refused"]),
            E("h_c13_all", covers=["end", "accepted", "refused"]),
            E("h_c13_long", params={"chars": 2000}, covers=["end", "accepted", "refused"]),
        ],
        "bounds": "each of the three parts as any text of up to 2 (thorough: 3) characters, one of them possibly any 2-byte character (one-character texts and thorough: also 3- and 4-byte ones), with the other parts absent or present; all three parts any one ASCII character at once; long parts (9 to 2,000 characters) of which one character is arbitrary; all four metric kinds",
        "outside": "long texts with more than one arbitrary character",
    },
    "C14": {
        "entries": [
            E("h_c14_new", covers=["end", "accepted", "refused"], thorough={"params": {"chars": 3}, "shards": 4}),
            E("h_c14_long", params={"chars": 2000}, covers=["end", "accepted", "refused"]),
            E("h_c14_build", params={"chars": 2, "wide": 1}, shards=3, covers=["end", "accepted", "refused"], thorough={"params": {"chars": 3, "wide": 1}, "shards": 8}),
            E("h_c14_insert", params={"chars": 2, "wide": 1}, shards=3, covers=["end", "accepted", "refused"], thorough={"params": {"chars": 3, "wide": 1}, "shards": 8}),
        ],
        "bounds": "names of up to 2 (3) characters, one possibly any 2-byte character (for Label::new also 3- and 4-byte ones), the reserved names, near misses of them and `quantile` with any one character replaced; directly, on the builder and on the metric, all four kinds, with up to 2 other labels; names of 9 to 2,000 characters of which one character is arbitrary",
        "outside": "long names with more than one arbitrary character",
    },
    "C15": {
        "entries": [
            E("h_c15_map", params={"ops": 2, "built": 2}, thorough={"params": {"ops": 3, "built": 2}, "shards": 8}),
            E("h_c15_map", params={"ops": 4, "built": 0, "kind": 0}, shards=4),
            E("h_c15_order", shards=3),
            E("h_c15_many"),
            E("h_c15_long"),
        ],
        "bounds": "up to 2 builder labels followed by 2 (3) insertions, removals or clears alternating between two clones, and 4 of them from no labels; names are any of four, values any ASCII character; 3 labels with any names of 1 or 2 characters; up to 16 labels inserted in a scattered order, then removed, one of them arbitrary, on builders and clones; all four kinds; 150 labels, one value arbitrary",
        "outside": "longer histories; more labels at once",
    },
    "C16": {
        "entries": [
            E("h_c16_values", params={"chars": 3}, shards=2, thorough={"params": {"chars": 4}, "shards": 8}),
            E("h_c16_values", params={"chars": 1, "padding": 10000}),
            E("h_c16_label", params={"chars": 3}, thorough={"params": {"chars": 4}, "shards": 4}),
            E("h_c16_label", params={"chars": 1, "padding": 70000}),
            E("h_c16_many"),
        ],
        "bounds": "one label value of up to 3 (4) characters, at most one of them outside ASCII (then any character of 2, 3 or 4 bytes), alone or after a fixed 10,000-character text (70,000 for a label on its own), beside a second label; given to the builder or inserted later; all four kinds, rendered by the metric and by a gathering, with one bucket or quantile line; 12 labels at once, one of them arbitrary",
        "outside": "longer arbitrary texts, two arbitrary non-ASCII characters at once (each character is escaped on its own)",
    },
    "C17": {
        "entries": [
            E("h_c17_help", params={"chars": 4}, thorough={"params": {"chars": 6}, "shards": 8}),
            E("h_c17_help", params={"chars": 1, "padding": 20000}),
        ],
        "bounds": "a help text of up to 4 (6) characters, at most one of them outside ASCII (then any character of 2, 3 or 4 bytes), alone or after a fixed 20,000-character text, or no help; the family stands between two others; all four kinds",
        "outside": "longer arbitrary texts; help texts that differ between merged metrics (the text does not say which one counts)",
    },
    "C18": {
        "entries": [
            E("h_c18_number"),
            E("h_c18_histogram"),
            E("h_c18_summary"),
            E("h_c18_many"),
        ],
        "bounds": "all four kinds, four splits of the full name with 0 to 2 labels, no timestamp, two fixed ones or any i64 but the least, values any f64 bit pattern or one of 12 telling ones; counters with any u64; histograms with one arbitrary bound and 0 to 2 observations; summaries with 2 quantiles; alone, gathered, or merged from two; 9 labels, 20 buckets, 12 observations, several gathered metrics, one value arbitrary",
        "outside": "the digits of an arbitrary symbolic number: number formatting is replaced by a token that the reader resolves, so the decimal digits themselves are checked on the telling values and left to core::fmt otherwise",
    },
    "C19": {
        "entries": [
            E("h_c19_families", params={"metrics": 2, "kinds": 2}, shards=4, thorough={"params": {"metrics": 2}, "shards": 8}),
            E("h_c19_families", params={"metrics": 2, "names": 2, "kinds": 4, "labels": 2}, shards=2),
            E("h_c19_families", params={"metrics": 3, "names": 3, "kinds": 1, "labels": 2}, shards=2, thorough={"params": {"metrics": 3, "names": 3, "kinds": 2, "labels": 2}, "shards": 8}),
            E("h_c19_many"),
            E("h_c19_repeats"),
            E("h_c19_long"),
        ],
        "bounds": "2 metrics (two gatherings each) of 2 (4) kinds, 6 splits of the full name with any name character, and 4 label sets with any ASCII value, one of them inserted after registration; 2 metrics of all kinds and 3 of one (2) kind with fewer splits; 24 metrics one of which has an arbitrary name character and label value; 37 metrics of all kinds, three sets of labels with repeated members, one of them of any kind and with an arbitrary label value; 660 metrics waiting for their first gathering, one value arbitrary",
        "outside": "more than 3 arbitrary metrics; labels changed while the gathering sorts (see C27)",
    },
    "C20": {
        "entries": [
            E("h_c20_values"),
            E("h_c20_values", params={"members": 3, "any value": 0}, thorough={"params": {"members": 4, "any value": 0}}),
            E("h_c20_apart", covers=["merged", "apart"]),
            E("h_c20_many"),
            E("h_c20_many", params={"members": 200}),
        ],
        "bounds": "2 counters or gauges of any non-negative or any f64 and any i64 timestamps, and 3 (4) of any 50-bit whole values; pairs of metrics of either kind with 1 or 2 labels of any one-character names and values of 1 or 2 ASCII characters; 12 or 200 members, one value arbitrary",
        "outside": "rounding when three or more inexact values are summed in some order",
    },
    "C21": {
        "entries": [
            E("h_c21_collectors", thorough={"params": {"collectors": 5, "rounds": 3}, "shards": 8}),
            E("h_c21_handles", thorough={"params": {"metrics": 5, "rounds": 3}, "shards": 8}),
            E("h_c21_collector"),
            E("h_c21_many"),
            E("h_c21_threads", preempt=1, shards=2, thorough={"params": {"gatherings": 2}, "preempt": 2, "shards": 8}),
            E("h_c21_threads", params={"threads": 2, "metrics": 2}, preempt=1, shards=4, thorough={"params": {"threads": 2, "metrics": 2}, "preempt": 2, "shards": 8}),
            E("h_c21_long"),
            E("h_c21_rounds"),
        ],
        "bounds": "4 (5) custom collectors, each ending after any number of collections, over 4 gatherings, the last one possibly registered late; 4 (5) metrics of all kinds with 1 or 2 handles dropped in any pattern over 3 (4) gatherings; collectors taken from a metric, metrics kept alive by another collector; 12 collectors over 6 gatherings with one arbitrary life span; one or two threads dropping one or two handles (and another registering a metric) while one gathers, every interleaving with 1 (2) preemptions; 100 collectors over 60 gatherings; 3,000 gatherings with metrics coming and going",
        "outside": "more collectors or gatherings",
    },
    "C22": {
        "entries": [
            E("h_c22_registries"),
            E("h_c22_default"),
            E("h_c22_many"),
            E("h_c22_waiting"),
            E("h_c19_long"),
            E("h_c31_long"),
        ],
        "bounds": "one builder of any kind with any subset of three gatherers' registries, built twice, plus one refused build of 4 sorts; any one gatherer dropped before or after; the default registry through builders, collectors and the default gatherer; 7 registries; 48 registrations waiting for the first gathering; 660 registrations waiting; 300 metrics from one builder",
        "outside": "the same registry added twice to one builder (then the metric is collected twice)",
    },
    "C23": {
        "entries": [
            E("h_c23_builder", shards=6, thorough={"params": {"changes": 3}, "shards": 8}),
            E("h_c23_started"),
            E("h_c23_many"),
        ],
        "bounds": "2 (3) changes of the common builder out of 7 sorts with any name character and ASCII label value, then a metric of any kind with 4 sorts of own settings, then one more change and another metric; changes between starting and finishing a metric; builders with, without, and with the default registry, and cloned ones; a fixed history of 16 changes with an arbitrary one in it",
        "outside": "longer histories of changes",
    },
    "C24": {
        "entries": [
            E("h_c24_history", params={"changes": 2}, shards=4, thorough={"params": {"changes": 3}, "shards": 8}),
            E("h_c24_many"),
            E("h_c24_threads", preempt=3, thorough={"preempt": 5}),
            E("h_c24_threads", params={"threads": 3, "reads": 1}, preempt=2, shards=2, thorough={"params": {"threads": 3, "reads": 2}, "preempt": 3, "shards": 8}),
        ],
        "bounds": "a metric of any kind and a clone of it; 2 (3) changes through either, each setting any i64 but the least, any time after or before the epoch whose milliseconds fit in i64 (any nanoseconds), the current time of any clock from -292 million to 292 million years, or nothing; read back on every clone and in the gathered family before and after; a fixed history of 14 changes with an arbitrary one in it; 2 or 3 threads setting any timestamps or clearing while another reads, every interleaving with 3 or 2 (5 or 3) preemptions",
        "outside": "the reserved least i64, which set refuses; longer histories",
    },
    "C25": {
        "entries": [
            E("h_c25_process", params={"digits": 4, "states": 4}, shards=8, thorough={"params": {"digits": 6, "states": 6}, "shards": 8}),
            E("h_c25_sizes"),
        ],
        "bounds": "a fake kernel in place of the C library's file calls: each of the three files readable, missing, failing in mid-read or garbage (or empty or torn), user and system ticks, resident pages of any 4 (6) digits, virtual size of twice as many, any thread count, descriptor count and limit of fixed width, 3 tick rates, 2 page sizes, files delivered whole or in pieces with an interrupted call; any creation time; a second gathering with other figures; small, ordinary and large figures (17 TB of address space, 2^56 ticks, 4 million threads, limits near 2^53) with their last digits arbitrary; the real procinfo and nom code is executed",
        "outside": "numbers of other widths; newer kernels' status lines, which procinfo does not understand, so that the descriptor count is then missing; that the descriptor figure is the kernel's table size, as procinfo reports it",
    },
    "C26": {
        "entries": [
            E("h_c26_many"),
            E("h_c26_iter", thorough={"params": {"labels": 3, "changes": 3}, "shards": 8}),
            E("h_c26_get", covers=["end", "absent", "found"], thorough={"params": {"labels": 3}}),
            E("h_c26_held", covers=[], grace=3600, thorough={"params": {"labels": 3}}),
            E("h_c26_threads", params={"changes": 1}, preempt=2, shards=4, thorough={"params": {"changes": 2}, "preempt": 2, "shards": 8}),
            E("h_c15_long"),
        ],
        "bounds": "up to 2 (3) labels of any one-letter names and any ASCII values on a metric of any kind; up to 2 (3) changes (insert, remove, clear) by another clone, at any point of an iteration whose iterator and labels are looked at throughout; a lookup while other metrics change; 12 labels iterated while a fixed history of changes with an arbitrary one in it goes on; the same with the change made by another thread at any atomic operation (2 preemptions). Every freed block stays marked, so any stale access is reported; 150 labels changed while they are iterated",
        "outside": "more labels or changes, longer names and values; a label kept beyond the iterator it came from, or looked up, while another clone changes the labels is known to dangle (known finding F10)",
    },
    "C27": {
        "entries": [
            E("h_c27_labels", params={"changes of the second": 2, "reads": 0}, preempt=1, reuse=1, shards=8, thorough={"preempt": 2, "shards": 8}),
            E("h_c27_labels", params={"reads": 0}, preempt=2, reuse=1, shards=8, thorough={"preempt": 3, "shards": 8}),
            E("h_c27_labels", params={"reads": 1}, preempt=1, reuse=1, shards=8, thorough={"preempt": 2, "shards": 8}),
            E("h_c27_labels", params={"changes of the second": 0, "reads": 2}, preempt=2, reuse=1, thorough={"params": {"changes of the first": 2, "changes of the second": 0, "reads": 2}, "preempt": 2}),
            E("h_c27_register", preempt=2, shards=8, thorough={"params": {"metrics": 1, "gatherings": 2}, "preempt": 2, "shards": 8}),
            E("h_c27_register", params={"threads": 1, "metrics": 2, "gatherings": 2}, preempt=2, thorough={"preempt": 3}),
            E("h_c27_many_labels", preempt=2, reuse=1, shards=4),
            E("h_c27_many", params={"metrics": 4}, preempt=1, shards=8, thorough={"params": {"metrics": 8}, "preempt": 1, "shards": 8}),
            E("h_c19_long"),
            E("h_c22_waiting"),
            E("h_c27_sort", preempt=1, shards=2, thorough={"params": {"metrics": 22, "which": 1}, "preempt": 2, "shards": 8}),
            E("h_c27_default", preempt=2, shards=8, thorough={"preempt": 2, "shards": 8}),
        ],
        "bounds": "every interleaving, at the atomic operations and lock operations, with at most 1 or 2 (thorough: 2 or 3) preemptions, of: two threads making one and one, or one and two, label changes (insert, remove, clear; any one-letter names and any ASCII values, starting with no or one label) on clones, with and without a reader; one thread changing labels with a reader reading twice; two threads registering one gauge each (any values), through handles of their own or of one shared handle, or through the default registry used for the first time, while a third gathers; one thread registering two metrics while another gathers twice; two threads making 5 label changes each, or registering 4 (8) gauges each; 48 or 660 registrations waiting for one gathering; a gathering of 22 metrics of one family while one of their labels changes twice (1 preemption). Freed memory is handed out again at once (labels)",
        "outside": "more preemptions, threads or changes; interleavings are sequentially consistent; collectors that are dropped concurrently with a gathering are C21",
    },
    "C28": {
        "entries": [
            E("h_c28_names", params={"chars": 1}, shards=2, covers=["end", "equal", "different"], thorough={"params": {"chars": 2}, "shards": 8}),
            E("h_c28_labels", covers=["end", "equal", "different"]),
            E("h_c28_long", params={"chars": 2000}, covers=["end", "equal", "different"]),
            E("h_c28_long_labels", params={"chars": 2000}, covers=["end", "equal", "different"]),
        ],
        "bounds": "pairs of metric names split in any way into parts of any well-formed characters: one of up to 1+1+1 (2+1+2), the other up to 1+1+3 characters; pairs of labels with names of 1 or 2 and values of up to 2 ASCII characters; names and labels of up to 2,000 characters differing in one arbitrary character; hashing is compared as the bytes fed to the hasher",
        "outside": "longer names; transitivity is implied by the agreement with byte order, not checked on triples",
    },
    "C29": {
        "entries": [
            E("h_c29_panic", shards=4, covers=["end", "panic", "before a panic", "after a panic"]),
            E("h_c29_inside"),
        ],
        "bounds": "an own gatherer or the default one with 3 metrics of rotating kinds and two custom collectors; one of them, at any of 3 places, panics at any one of 4 gatherings, while being asked or while its metrics are taken; after every gathering a metric is registered, through an old or a fresh registry, and possibly another dropped; or it carries out one of 8 sorts of action (registering, dropping an earlier or later metric, relabelling, letting a registry go, gathering another gatherer, using the default registry) at its second call, at any of 4 places",
        "outside": "a collector of the default gatherer that uses default_registry() while the default gatherer's mutex is held for that gathering: the mutex belongs to the caller and std's mutex is not re-entrant; a collector that panics in its destructor",
    },
    "C30": {
        "entries": [
            E("h_c30_window", thorough={"params": {"rounds": 64}, "shards": 8}),
            E("h_c30_labels", thorough={"params": {"rounds": 120}}),
            E("h_c30_updates", thorough={"params": {"rounds": 96}}),
            E("h_c30_dropped", thorough={"params": {"blocks": 6}}),
            E("h_c30_life"),
        ],
        "bounds": "48 (64) observations of any f64 with windows of 1 to 8 s and pauses longer than the window, with and without queries, 40 (120) rounds of label changes with any ASCII values, 24 (96) rounds of updates, clones and gatherings, 103 (196) metrics registered and dropped or collectors ended, all kinds: the bytes in use late in the history exceed those early in it by no more than 512; a whole life of a metric, registries, builder, gatherer and gathered result, dropped in 4 orders: nothing is left",
        "outside": "growth that shows in longer histories only; memory that std keeps per thread; registrations pile up while nobody gathers, as documented",
    },
    "C31": {
        "entries": [
            E("h_c31_again", thorough={"params": {"rounds": 4}, "shards": 4}),
            E("h_c31_long"),
        ],
        "bounds": "3 (4) metrics finished by one builder of any kind with or without a namespace, any ASCII character as label value, any finite initial value; between them nothing, a change of labels, of name parts and help, of buckets or quantiles, or a refused attempt; then a change of labels and timestamp of any of them; 300 metrics from one builder, one value arbitrary",
        "outside": "longer histories; the registries of a builder are C22",
    },
    "C32": {
        "entries": [
            E("h_c32_ways", thorough={"params": {"metrics": 4}}),
            E("h_c32_snapshot"),
        ],
        "bounds": "3 (4) metrics of rotating kinds, with any ASCII label value, values on a 12-bit grid, any i64 timestamp but the least, with or without help, read through to_text, as_ref, into_vec, iteration, a clone, the entries' own texts and accessors, and the general wrapper; one or two merged counters or gauges updated, given another timestamp, gathered again or dropped after the gathering",
        "outside": "gathered histograms and summaries, and labels, follow the metric (the crate shares them), so that nothing is said about them after later updates",
    },
}

NOT_APPLICABLE = {}

"""Per property: harness, libraries, budgets. rule = what counts as a non-trivial case."""
CHECKS = {
    "C01": dict(
        harness="stream", libs=["eckit"],
        rule="sequences of typed items over 7 stream kinds; non-trivial: at least two items (round trip), two objects, a tree of more than two nodes, a multi-part handle",
        quick=dict(cases=60000, seconds=20), thorough=dict(cases=2000000, seconds=600),
    ),
    "C02": dict(
        harness="codec", libs=["eckit", "eckit_codec"],
        rule="records of generated items (15 kinds, 4 compressions, with and without checksums, grouped keys), several per file or memory, links, damaged files; non-trivial: at least two items in the records (round trip), any damage",
        quick=dict(cases=20000, seconds=20), thorough=dict(cases=600000, seconds=600),
    ),
    "C03": dict(
        harness="encoding", libs=["eckit", "eckit_codec"],
        rule="byte strings, bit widths and number sequences with repetitions; non-trivial: more than a few bytes/numbers",
        quick=dict(cases=100000, seconds=20), thorough=dict(cases=3000000, seconds=600),
    ),
    "C04": dict(
        harness="hashing", libs=["eckit", "eckit_codec"],
        rule="histories of add/digest/reset/compute on all algorithms, sizes around block boundaries; non-trivial: several steps and some data",
        quick=dict(cases=150000, seconds=20), thorough=dict(cases=4000000, seconds=600),
    ),
    "C10": dict(
        harness="fraction", libs=["eckit"],
        rule="pairs of fractions over four magnitude classes; non-trivial: both operands have a denominator other than 1 (arith), resp. a non-integer value",
        quick=dict(cases=300000, seconds=20), thorough=dict(cases=6000000, seconds=600),
    ),
    "C18": dict(
        harness="hread", libs=["eckit"],
        rule="random compositions (up to three levels) of 13 handle kinds over files and memory, histories of read/seek/skip/rewind/restart/peek with interleaving, transfers; non-trivial: a composition with content, resp. at least one operation on more than a few bytes",
        quick=dict(cases=250000, seconds=20), thorough=dict(cases=1500000, seconds=600),
    ),
    "C19": dict(
        harness="hwrite", libs=["eckit"],
        rule="random compositions of 11 writing handle kinds (files, memory, raw, aio, async, buffered, tee, multi) with generated write/seek/flush histories, injected write failures, read failures and restarts at generated points, stdio and iostream over handles, buffers; non-trivial: more than two writes, more than a few bytes",
        quick=dict(cases=60000, seconds=20), thorough=dict(cases=1000000, seconds=600),
    ),
    "C05": dict(
        harness="json", libs=["eckit"],
        rule="trees of up to five levels written with generated white space, escapes and notations; writer call sequences in 4 layouts; damaged texts and garbage against an independent RFC 8259 parser; non-trivial: more than two nodes, texts of more than 2 bytes",
        quick=dict(cases=150000, seconds=20), thorough=dict(cases=4000000, seconds=600),
    ),
    "C06": dict(
        harness="yaml", libs=["eckit"],
        rule="trees written in generated YAML notations (block, compact, flow, quoted and plain scalars, hexadecimal, comments, anchors, merges, block scalars) and as JSON; damaged texts; non-trivial: more than two nodes, texts of more than 2 bytes",
        quick=dict(cases=400000, seconds=20), thorough=dict(cases=3000000, seconds=600),
    ),
    "C07": dict(
        harness="value", libs=["eckit"],
        rule="triples of related values of ten kinds compared; histories of up to 15 assignments, element updates, appends, removals on up to four variables sharing content; pairs of numbers, strings and lists; non-trivial: more than five nodes together, more than three steps",
        quick=dict(cases=150000, seconds=20), thorough=dict(cases=4000000, seconds=600),
    ),
    "C08": dict(
        harness="config", libs=["eckit"],
        rule="histories of up to 15 set/remove/merge/assign calls with nested names on up to three configurations, read back by all typed accessors, JSON, YAML, streams; resources given by generated combinations of file, manager, environment and command line; tables; non-trivial: more than three steps / any resource / more than one line",
        quick=dict(cases=35000, seconds=20), thorough=dict(cases=2000000, seconds=600),
    ),
    "C09": dict(
        harness="datetime", libs=["eckit"],
        rule="days of the years 101-9999 with generated offsets, texts in eight notations, times in seven notations up to 1000 hours and negative, damaged texts; non-trivial: month ends, an offset, a time off the hour, any damaged text",
        quick=dict(cases=200000, seconds=20), thorough=dict(cases=6000000, seconds=600),
    ),
    "C11": dict(
        harness="text", libs=["eckit"],
        rule="texts of up to 20 bytes over a small alphabet of separators, quotes and braces (30 % any bytes), integers of all magnitudes, doubles of all exponents, generated patterns and subjects made to nearly match; non-trivial: several words, variables or atoms, numbers over 999, tables of several lines with empty fields at their ends",
        quick=dict(cases=300000, seconds=20), thorough=dict(cases=10000000, seconds=600),
    ),
    "C12": dict(
        harness="btree", libs=["eckit"],
        rule="histories of up to 400 (thorough 3000) operations in bursts, keys ascending, descending, anywhere or in a small range, six combinations of key, value and page size (pages of 4 to 11 entries, one of 4000), trees at an offset; non-trivial: more entries than fit one page",
        quick=dict(cases=100000, seconds=20), thorough=dict(cases=6000000, seconds=600),
    ),
    "C13": dict(
        harness="kdtree", libs=["eckit", "eckit_geometry"],
        rule="up to 60 (at times 2000) points in one to three dimensions on small lattices (many ties and duplicates), on a line, spread, or over many magnitudes, built, inserted or both, with queries in between; non-trivial: more than four points",
        quick=dict(cases=400000, seconds=20), thorough=dict(cases=20000000, seconds=600),
    ),
    "C14": dict(
        harness="containers", libs=["eckit"],
        rule="histories of up to 60 operations on small sets of keys, buffers of 1 to 40 bytes, filters of 1 to 300 bits, arrays reopened with the same and other sizes; non-trivial: more than six operations (four for files, two openings)",
        quick=dict(cases=300000, seconds=20), thorough=dict(cases=10000000, seconds=600),
    ),
    "C16": dict(
        harness="threads", libs=["eckit"], flaky=True, case_ms=30000,
        rule="up to four producers and consumers of up to 30 items over queues of one to seven places, closed, interrupted, resized; pools of up to six threads given up to 80 jobs (nested, failing, in lists), waited for, resized, ended; every lock operation gives way with a generated chance; pools of files; non-trivial: more items than places, more than three jobs, several threads that write more than four times",
        quick=dict(cases=100000, seconds=20), thorough=dict(cases=2000000, seconds=600),
    ),
    "C24": dict(
        harness="txn", libs=["eckit"],
        rule="up to five rounds of up to ten begins, updates and ends, each round a process of its own that may end before any of its file calls (data in part on the disk), recovery in a new process after each; two to four processes at once; non-trivial: more than three steps",
        quick=dict(cases=20000, seconds=25), thorough=dict(cases=1000000, seconds=600),
    ),
    "C25": dict(
        harness="sql", libs=["eckit", "eckit_sql"],
        rule="tables of up to five columns (integer, real, double, string, bitfield, half of them with a missing value) and up to 14 rows, at times changing layout half way; queries of up to four expressions of depth two, conditions of depth three, ordering, distinct, aggregates, one or two tables; non-trivial: more than one row (or pair of rows), and the condition keeps some",
        quick=dict(cases=300000, seconds=20), thorough=dict(cases=20000000, seconds=600),
    ),
    "C27": dict(
        harness="linalg", libs=["eckit", "eckit_linalg"],
        rule="sparse: at least three entries and an empty row between two that are not; product: three entries, more than one row and column; dense: all dimensions above one; tensor: at least two dimensions above one",
        quick=dict(cases=40000, seconds=20), thorough=dict(cases=2000000, seconds=600),
    ),
    "C15": dict(
        harness="cachemgr", libs=["eckit"],
        rule="history: at least three creations and a hit; processes: at least four requests",
        quick=dict(cases=20000, seconds=20), thorough=dict(cases=1000000, seconds=600),
    ),
    "C21": dict(
        harness="paths", libs=["eckit"],
        rule="names: '..' and at least two slashes in a path that leads somewhere; relative: both paths at least two deep; expand: at least two variables",
        quick=dict(cases=300000, seconds=20), thorough=dict(cases=2000000, seconds=300),
    ),
    "C23": dict(
        harness="uri", libs=["eckit"],
        rule="text_: query, name and one of host and fragment; plain: a colon and one of #?@; anything: more than eight characters",
        quick=dict(cases=400000, seconds=20), thorough=dict(cases=2000000, seconds=300),
    ),
    "C22": dict(
        harness="files", libs=["eckit"],
        rule="tree: at least three steps that make or remove something; modes: some execute and some write permission; unique: all",
        quick=dict(cases=20000, seconds=20), thorough=dict(cases=1000000, seconds=600),
    ),
    "C26": dict(
        harness="message", libs=["eckit"],
        rule="reader: at least three messages that do not fit the reader's buffer; formats: at least three readers; peeks: more than four steps and one that looks beyond the next byte",
        quick=dict(cases=40000, seconds=20), thorough=dict(cases=1000000, seconds=300),
    ),
    "C33": dict(
        harness="geobox", libs=["eckit", "eckit_geo", "eckit_spec"],
        rule="points: some points inside and some outside; boxes and forms: boxes that are not empty; rotated: a rotation",
        quick=dict(cases=600000, seconds=20), thorough=dict(cases=2000000, seconds=300),
    ),
    "C34": dict(
        harness="geopoint", libs=["eckit", "eckit_geo", "eckit_spec", "eckit_geometry"],
        rule="normal: a latitude beyond the poles; sphere: two points that are neither one nor opposite; circle: neither the equator nor a meridian",
        quick=dict(cases=600000, seconds=20), thorough=dict(cases=2000000, seconds=300),
    ),
    "C32": dict(
        harness="project", libs=["eckit", "eckit_geo", "eckit_spec"],
        rule="conic: two standard parallels; mercator: an oblate figure; azimuthal: an oblique centre or an origin off the centre; sphere: a rotation of the poles; others: at least two composed",
        quick=dict(cases=300000, seconds=20), thorough=dict(cases=1000000, seconds=300),
    ),
    "C30": dict(
        harness="geogrid", libs=["eckit", "eckit_geo", "eckit_spec"],
        rule="a grid of more than one point with an area or an order that is not the default; an iterator moved more than three times; a crop that leaves out some points",
        quick=dict(cases=40000, seconds=20), thorough=dict(cases=1000000, seconds=600),
    ),
    "C31": dict(
        harness="gridspec", libs=["eckit", "eckit_geo", "eckit_spec"],
        rule="again: a grid with an area or an order that is not the default; distinct: two grids with different points; unknown: a name that is not empty",
        quick=dict(cases=40000, seconds=20), thorough=dict(cases=1000000, seconds=600),
    ),
    "C35": dict(
        harness="polygon", libs=["eckit", "eckit_geo", "eckit_spec", "eckit_geometry"],
        rule="a polygon of more than three vertices; a point at the pole; a point in two rings; surplus points to remove; a rotated polygon; clipping that leaves something; a point strictly inside a box",
        quick=dict(cases=600000, seconds=20), thorough=dict(cases=2000000, seconds=300),
    ),
    "C36": dict(
        harness="geosearch", libs=["eckit", "eckit_geo", "eckit_spec"],
        rule="a grid of more than eight points, and two grids or several processes that share the file of a grid",
        quick=dict(cases=40000, seconds=20), thorough=dict(cases=1000000, seconds=600),
    ),
    "C45": dict(
        harness="specs", libs=["eckit", "eckit_spec"],
        rule="histories: three names or more, of two types or more; equality: one that is not empty and not larger; texts: two names or more; layers: two pushed over a base; generators: two registered after more than three steps",
        quick=dict(cases=400000, seconds=20), thorough=dict(cases=5000000, seconds=300),
    ),
    "C37": dict(
        harness="mpi", libs=["eckit_mpi", "eckit"],
        rule="collectives: of two elements or more; messages: more than three received, more than two of them waiting at once; threads: more than three messages of each; registry: more than four steps and three communicators; a file that is not empty",
        quick=dict(cases=400000, seconds=20), thorough=dict(cases=5000000, seconds=300),
    ),
    "C46": dict(
        harness="distrib", libs=["eckit_distributed", "eckit_option", "eckit"],
        rule="work: four jobs or more for two workers or more; messages: more than three values and more than the first buffer",
        quick=dict(cases=20000, seconds=20), thorough=dict(cases=300000, seconds=300),
    ),
    "C47": dict(
        harness="cluster", libs=["eckit"],
        rule="nodes, disks: more than five operations and more than two entries at a time; processes: more than two; info: more than two attributes",
        quick=dict(cases=100000, seconds=20), thorough=dict(cases=1000000, seconds=300),
    ),
    "C48": dict(
        harness="filespace", libs=["eckit"],
        rule="select: more than two file systems, some of which cannot be selected; rounds: more than two candidates; shares: more than one candidate; space: more than four operations and two configured disks or more; usage: more than two updates",
        quick=dict(cases=200000, seconds=20), thorough=dict(cases=2000000, seconds=300),
    ),
    "C49": dict(
        harness="geoseq", libs=["eckit", "eckit_geo", "eckit_spec", "eckit_maths"],
        rule="gauss: N above three; rows: a known classical grid, an octahedral one of more than two rows; spaced: more than one call; stepped: more than two values; crop: more than two values, some of them in; kept: more than three entries; together: always; records: more than five operations and a failure; harmonics: a truncation above one",
        quick=dict(cases=200000, seconds=15), thorough=dict(cases=2000000, seconds=300),
    ),
    "C50": dict(
        harness="metrics", libs=["eckit"],
        rule="metrics: more than six operations and a group; sent: more than one value; threads: more than three values each",
        quick=dict(cases=200000, seconds=15), thorough=dict(cases=2000000, seconds=300),
    ),
    "C43": dict(
        harness="cubes", libs=["eckit", "eckit_geo"],
        rule="a cube of two dimensions or more, of more than four elements; of more than 100000; several additions of labels; more than two nodes that leave and join; matrices that are regular and do not commute",
        quick=dict(cases=600000, seconds=15), thorough=dict(cases=5000000, seconds=300),
    ),
    "C44": dict(
        harness="locks", libs=["eckit"],
        rule="three or more processes or threads that lock more than four times",
        quick=dict(cases=40000, seconds=20), thorough=dict(cases=1000000, seconds=600),
    ),
    "C42": dict(
        harness="cmdargs", libs=["eckit", "eckit_option"],
        rule="a command line of more than two words that is accepted, with more than one option that has a value",
        quick=dict(cases=400000, seconds=15), thorough=dict(cases=3000000, seconds=300),
    ),
    "C41": dict(
        harness="logs", libs=["eckit"],
        rule="targets and alone: more than one target, more than ten characters; shared: more than two writers; numbers: more than a few digits; syslog: software and a message",
        quick=dict(cases=400000, seconds=20), thorough=dict(cases=3000000, seconds=300),
    ),
    "C40": dict(
        harness="web", libs=["eckit", "eckit_web"],
        rule="a request with several segments and several parameters or headers; pages of several parts; several resources and several requests",
        quick=dict(cases=400000, seconds=20), thorough=dict(cases=3000000, seconds=300),
    ),
    "C39": dict(
        harness="net", libs=["eckit"],
        rule="more than a few bytes, in several writes; several turns, clients, datagrams or connections; valid addresses and networks",
        quick=dict(cases=200000, seconds=20), thorough=dict(cases=3000000, seconds=400),
    ),
    "C38": dict(
        harness="fam", libs=["eckit"],
        rule="list and map: more than 3 elements and some removed; pushes, inserts, locked: more than 3 switches of thread; objects: two objects and some writes; handles: some reads",
        quick=dict(cases=400000, seconds=20), thorough=dict(cases=3000000, seconds=300),
    ),
}

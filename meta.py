"""What each property says, where it lives and how it is decided. gen.py writes properties.jsonl, MANIFEST.json and the
property sections of DESIGN.md from it."""
P = {}


def prop(pid, title, statement, over, text, why, files, mech, technique, design, note="", observe=None, state=None):
    P[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, design=design, note=note, observe=observe, state=state)


prop("C01", "What is written to a Stream is read back, in order, typed, or refused",
     "Any sequence of items (integers, doubles, strings, byte blobs, containers, nested objects, registered Streamable classes) written to any Stream (file, memory, resizable memory, handle, Unix file, pipe) is read back equal, in order, and consuming exactly what was written. "
     "Reading an item as another type, past the end, or from a truncated stream is refused with an exception and never yields made-up data, whatever the cut point. "
     "An object of an unknown or newer class can be skipped, and what follows it is still read correctly; an export of databases is imported as it was.",
     ["inputs", "histories", "fault_sequences"],
     "all sequences of items over all kinds of streams, all truncation points",
     "Tests write a handful of fixed values to a file or a memory stream; item boundaries against buffer sizes, nesting and cut points are unbounded.",
     ["src/eckit/serialisation/Stream.cc", "src/eckit/serialisation/Stream.h", "src/eckit/serialisation/Streamable.cc", "src/eckit/serialisation/MemoryStream.cc", "src/eckit/serialisation/ResizableMemoryStream.cc", "src/eckit/serialisation/HandleStream.h", "src/eckit/serialisation/FileStream.cc", "src/eckit/serialisation/Reanimator.cc", "src/eckit/persist/Exporter.cc"],
     [("type tag in front of every item, checked when read", "Stream::readTag"), ("length-prefixed strings and blobs", "Stream::operator<<"), ("begin/end markers around objects", "Stream::startObject, skipEndObject"), ("growth of the buffer", "ResizableMemoryStream::write")],
     "property-based round-trip testing over generated item sequences, against the written values",
     "Generated sequences of up to some dozens of typed items (15 kinds, sizes around 0, 1, 127, 128, 255, 256, 4096 and the buffer sizes) are written to seven kinds of streams and read back; oracle: the list that was written, and the number of bytes consumed. Generated trees of Streamable objects (Value trees, file handles, PathNames, exceptions, Messages) are reanimated and compared with the model; a truncation at every kind of generated point and a wrong-type read must be refused; random damage must not crash (ASan).")

prop("C02", "Records of the codec are read back as written, and damage is reported",
     "A record written with any combination of items (strings, numbers, dates, arrays of any type and shape, nested and keyed items, metadata-only items), compression method and checksum setting is read back with equal values and metadata from a file, a stream or memory, all at once, item by item or partially, and so is every record of a file that holds several. "
     "Links to other records are followed to the linked item. Damaged payload bytes under a checksum, damaged metadata and any truncation are reported by an exception, never as silently different values.",
     ["inputs", "fault_sequences"],
     "all sets of items, all compressions, all damaged bytes and truncation points",
     "Tests use a few fixed arrays and strings; combinations of compression, checksum, sharing, linking and damage positions are not enumerated.",
     ["src/eckit/codec/Record.h", "src/eckit/codec/RecordWriter.cc", "src/eckit/codec/RecordReader.cc", "src/eckit/codec/RecordItem.cc", "src/eckit/codec/RecordItemReader.cc", "src/eckit/codec/ReadRequest.cc", "src/eckit/codec/Session.cc", "src/eckit/codec/detail/Encoder.h", "src/eckit/codec/types/array/ArrayMetadata.cc", "src/eckit/codec/types/string.h", "src/eckit/codec/types/scalar.cc"],
     [("checksums of metadata and data sections", "codec/Data.cc, RecordWriter.cc"), ("index of data sections", "RecordWriter.cc"), ("compressors by name", "utils/compressor/CompressorFactory"), ("type matching at decode", "codec/detail/Decoder.h")],
     "property-based round-trip and damage testing against the generated record",
     "Records of generated items (15 kinds), with compression none/lz4/bzip2/snappy/aec where available, checksums on and off, keyed groups and links, are written several per file or memory block and read through Record, RecordReader, RecordItemReader and requests; oracle: the generated items. Payload and metadata bytes are flipped and files truncated at generated points: the reader has to throw or give the unchanged values.")

prop("C03", "Encodings and compressions are lossless",
     "Whatever bytes go into Base64, the bit streams, the LZW-like compressor, the run-length encoders or any available Compressor (none, lz4, snappy, bzip2, aec) come out again unchanged, whatever their length and repetitiveness, and a decoder does not touch memory outside what it was given. "
     "Damaged or truncated compressed data is refused or decoded to something else, but never causes a crash or an unbounded allocation.",
     ["inputs"], "all byte strings, all bit widths, all sequences of values",
     "The tests compress a couple of fixed buffers; table-full, buffer-boundary and run-length boundaries depend on length and content.",
     ["src/eckit/io/Base64.cc", "src/eckit/codec/detail/Base64.cc", "src/eckit/io/BitIO.cc", "src/eckit/utils/Compressor.h", "src/eckit/io/Compress.cc", "src/eckit/utils/RLE.h", "src/eckit/utils/RLE.cc", "src/eckit/utils/LZ4Compressor.cc", "src/eckit/utils/SnappyCompressor.cc", "src/eckit/utils/BZip2Compressor.cc", "src/eckit/utils/AECCompressor.cc"],
     [("code table and width growth", "Compress::encode/decode"), ("group detection", "RLEencode2"), ("bit accumulator", "BitIO")],
     "property-based round-trip testing with structured generators (repetitive data, table-filling sizes)",
     "Byte strings with generated repetition structure (periods, runs, copies of earlier parts, random) of up to some ten thousand bytes are encoded and decoded; oracle: the input, and for Base64 an independent encoder. Damaged encodings are decoded under ASan.")

prop("C04", "Hashes and checksums depend on the bytes only",
     "Every hash (MD5, MD4, SHA1, xxHash, adler32) gives the published digest of the concatenation of all bytes added, however they were split into calls, however often the digest was asked for in between, and after a reset() nothing of what was added before counts. "
     "compute() of a buffer equals add() of it; equal inputs give equal digests, and a changed byte changes the digest.",
     ["inputs", "histories"], "all histories of add, digest, compute, reset",
     "The tests hash a few fixed strings once; block boundaries and the order of calls are not explored.",
     ["src/eckit/utils/MD5.cc", "src/eckit/utils/MD4.cc", "src/eckit/utils/SHA1.cc", "src/eckit/utils/xxHashing.cc", "src/eckit/utils/Hash.cc", "src/eckit/utils/Hash.h"],
     [("digest cached until the next update", "Hash::digest, digest_"), ("block buffering of partial input", "MD5/SHA1 update")],
     "model-based testing of call histories against independent implementations",
     "Histories of add (typed and raw), digest, compute and reset over generated chunks, sizes around the block boundaries (55–65, 119–129); oracle: independent reference implementations written in the harness and the streaming/one-shot equality.",
     note=" One known finding (MD5 after digest()) is listed in known_findings.json.")

prop("C05", "JSON is written and read according to the standard",
     "Every value tree, and every well-formed sequence of writer calls, is written as valid JSON that an independent RFC 8259 reader reads as the same tree, including all characters, escapes, precision of doubles and key order. "
     "The parser reads every valid JSON text (any white space, escapes, surrogate pairs, number notation, duplicate-free keys) as the tree it denotes, and refuses texts that are not JSON with an exception.",
     ["inputs"], "all JSON texts, all value trees, all sequences of writer calls",
     "The tests parse a dozen fixed texts; escapes, number notations and malformed texts are unbounded.",
     ["src/eckit/log/JSON.cc", "src/eckit/log/JSON.h", "src/eckit/parser/JSONParser.cc", "src/eckit/parser/ObjectParser.cc", "src/eckit/parser/StreamParser.cc"],
     [("escaping", "JSON.cc encode"), ("number and string scanner", "ObjectParser::parseNumber, parseString"), ("separators and nesting", "JSON::sep, startObject, endObject")],
     "differential property-based testing against a strict reference parser, both directions",
     "Trees of up to five levels are rendered in generated notations and parsed; writer call sequences in four layouts are read by the reference parser (harness/refjson.h); damaged texts and garbage: the parser has to accept exactly what the reference accepts, with listed tolerances (blanks within literal words, control characters in strings, integers outside 64 bits).")

prop("C06", "YAML texts are read as the tree they denote",
     "Every tree written in the supported YAML notations (block and flow collections, compact sequences, plain and quoted scalars, block scalars, hexadecimal, null/boolean words, comments, anchors, aliases and merge keys), and every JSON text, is read as that tree, independent of indentation width and blank lines. "
     "Any other text is read or refused with an exception; the parser always comes back and never touches memory it does not own.",
     ["inputs"], "all texts in the supported notations; all byte strings for termination and memory safety",
     "The tests read some twenty fixed documents; notation combinations and malformed texts are unbounded.",
     ["src/eckit/parser/YAMLParser.cc", "src/eckit/parser/YAMLParser.h", "src/eckit/parser/ObjectParser.cc"],
     [("scanner of items with indentation", "YAMLParser::loadItem"), ("typed plain scalars", "YAMLParser.cc toValue"), ("anchors and merge", "YAMLParser.cc")],
     "generator of notations for known trees (round trip), fuzzing of damaged texts for termination and memory safety",
     "A generated tree is rendered with a random notation for every node; the parser must yield the tree. Every JSON text from the C05 writer must be read alike. Damaged texts run under ASan with a 60 s limit.")

prop("C07", "Values: total order, value semantics, arithmetic",
     "Comparison of values is a consistent total order (antisymmetric, transitive, equal values order equal) that agrees with numeric, lexical and element-wise order within a kind, and a copy of a value (list, map, ordered map, nested) is independent of its original whatever is changed afterwards. "
     "Arithmetic and conversions of numeric values agree with 64-bit integer or double arithmetic, and list, map and string operations (element, size, keys, contains, head, tail, +) with those of the standard containers.",
     ["inputs", "histories"], "all values and all histories of changes to values that share content",
     "Tests compare a few pairs; aliasing through shared content shows only in particular histories.",
     ["src/eckit/value/Value.cc", "src/eckit/value/Value.h", "src/eckit/value/Content.cc", "src/eckit/value/ListContent.cc", "src/eckit/value/MapContent.cc", "src/eckit/value/OrderedMapContent.cc", "src/eckit/value/NumberContent.cc", "src/eckit/value/DoubleContent.cc", "src/eckit/value/StringContent.cc", "src/eckit/value/BoolContent.cc"],
     [("copy on write", "Value::update"), ("double dispatch of comparisons and arithmetic", "Content::compare*, add*, sub*")],
     "model-based testing of histories on values sharing content; algebraic laws over generated triples",
     "Triples of related values: order laws. Histories of up to 15 steps over four variables: a model tree per variable must be what is read after every step. Pairs of numbers: __int128/double references.")

prop("C08", "Configurations and resources yield what was set, by precedence",
     "A configuration returns under every (nested) name exactly the value and type last set there by set, remove, merge or assignment, and says absent for anything else; copies and sub-configurations are independent; writing it as JSON, YAML or stream and reading it again gives an equal configuration. "
     "A Resource takes its value from the command line, then the environment, then the configuration files, then its default, whatever the order of the parts of its name, configuration tables yield every well-formed line of any length, and parameters put together give the value of the first set that has the name in its scope.",
     ["histories", "configurations"], "all histories of changes, all combinations of sources",
     "Tests set a few keys; nested sharing, separators, type queries and the combination of sources are not enumerated.",
     ["src/eckit/config/Configuration.cc", "src/eckit/config/LocalConfiguration.cc", "src/eckit/config/YAMLConfiguration.cc", "src/eckit/config/JSONConfiguration.h", "src/eckit/config/Resource.h", "src/eckit/config/ResourceBase.cc", "src/eckit/config/ResourceMgr.cc", "src/eckit/config/EtcTable.cc", "src/eckit/value/CompositeParams.cc", "src/eckit/value/ScopeParams.cc", "src/eckit/value/Properties.cc"],
     [("path lookup with the separator", "Configuration::lookUp"), ("clone when shared", "LocalConfiguration::setValue"), ("order of sources", "ResourceBase::init")],
     "model-based testing of histories of configurations; generated combinations of resource sources",
     "Up to 15 calls on three configurations against ordered model trees, all typed accessors and type queries; resources from generated files, manager, environment and command line; tables.")

prop("C09", "Dates and times follow the calendar",
     "Date, Time, DateTime and Month agree with the proleptic Gregorian calendar for any value: construction from fields, Julian days or any of the documented texts, arithmetic, differences, comparisons, fields and printed forms, where printing and reading gives the same value back. "
     "Texts, days, hours or minutes that denote no date or time are refused with an exception instead of being taken for another one. "
     "Adding any number of seconds (negative and fractional ones included) to a DateTime moves it by exactly that much.",
     ["inputs"], "all dates, times, durations and texts",
     "Tests use a few dates; month ends, leap years, signs, carries over midnight and malformed texts are combinations they sample thinly.",
     ["src/eckit/types/Date.cc", "src/eckit/types/Time.cc", "src/eckit/types/DateTime.cc", "src/eckit/types/Month.cc", "src/eckit/types/Hour.cc", "src/eckit/types/DayOfYear.cc", "src/eckit/types/ClimateDate.cc", "src/eckit/types/TimeInterval.cc"],
     [("conversion between fields and Julian days", "Date::dateToJulian, julianToDate"), ("regular expressions of the accepted texts", "Time::Time(std::string_view, bool)"), ("normalisation over midnight", "DateTime::operator+")],
     "property-based testing against an independent calendar model",
     "Dates in the years 101 to 9999 and times in generated notations (hhmmss, hh:mm:ss, 1d2h, ISO durations) and damaged texts; oracle: an independent calendar in whole days and seconds. Hours, days of the year, dates without a year and time intervals likewise. Throwing costs most of the time.")

prop("C10", "Rational numbers obey exact arithmetic",
     "A Fraction is always held in lowest terms with a positive denominator, and +, -, *, /, negation, inverse, comparisons and conversions (integer, text, stream, decimal notation) agree with exact rational arithmetic whenever the 64-bit intermediate products do not overflow; where they do, comparisons are still right unless the operands are nearly equal, and sums, products and quotients are close to the exact ones or refused. Building a Fraction from a double yields a fraction close to it (within 1e-9 relative for simple fractions) or is rejected, never a distant value.",
     ["inputs"], "all pairs of numerators/denominators in the 64-bit range and all doubles",
     "The tests use a few dozen hand-picked fractions; overflow boundaries and continued-fraction convergence depend on the magnitude of both operands.",
     ["src/eckit/types/Fraction.cc", "src/eckit/types/Fraction.h"],
     [("canonicalisation by gcd", "Fraction::Fraction(top, bottom)"), ("overflow-checked add/sub/mul", "Fraction.cc"), ("continued fraction expansion", "Fraction::Fraction(double)")],
     "property-based testing against an __int128 reference",
     "Pairs of fractions in four magnitude classes; every operation is computed in __int128.")

prop("C11", "Text utilities follow their simple models",
     "Tokenising, splitting, joining, trimming, quoting, substitution of variables, shell patterns, regular expressions and their escaping, conversions between text and numbers, booleans and lists, version numbers, UUIDs, fixed-size strings, comma-separated tables and printed quantities (big numbers, bytes, durations) give what a straightforward model gives, for any text or value. "
     "What is converted to text and back is the same. "
     "Text that is no number, version or UUID, does not fit, or holds unbalanced or unknown variables is refused with an exception.",
     ["inputs"], "all texts, patterns, subjects and numbers",
     "Tests give a handful of examples per function; short patterns, empty and extreme values and bytes above 127 are outside them.",
     ["src/eckit/utils/StringTools.cc", "src/eckit/utils/Tokenizer.cc", "src/eckit/utils/Translator.cc", "src/eckit/parser/CSVParser.cc", "src/eckit/utils/Regex.cc", "src/eckit/types/SemanticVersion.cc", "src/eckit/types/UUID.cc", "src/eckit/types/FixedString.h", "src/eckit/types/FloatCompare.cc", "src/eckit/log/BigNum.cc", "src/eckit/log/Bytes.cc", "src/eckit/log/Seconds.cc"],
     [("translation of shell patterns to regular expressions", "Regex::Regex"), ("units kB, MiB, ...", "Translator.cc multiplier()"), ("distance in units of last place", "FloatCompare.cc")],
     "property-based testing against reference models (backtracking matcher, __int128, character loops)",
     "Thirteen generators, one per utility; subjects are derived from patterns so that half of them match; oracle: independent reimplementations. ASan watches buffers.")

prop("C12", "A BTree is a sorted map in a file",
     "After any history of insertions and replacements, in any order of keys, a BTree gives for every key the last value set, for every range of keys exactly the entries in it, in order, and the right count. "
     "The same holds after closing and opening the file again (for reading only, too), for a second reader after flush(), for trees stored at an offset in a file, and for any types and page size. "
     "A tree opened for reading only refuses to be changed.",
     ["inputs", "histories"], "all histories of set, get, range, count, flush, close and open; all key orders",
     "Tests fill one tree in one order; page splits of several levels and ranges that begin or end at page borders depend on the history of insertions.",
     ["src/eckit/container/BTree.cc", "src/eckit/container/BTree.h", "src/eckit/io/PooledFileDescriptor.cc", "src/eckit/io/PooledFile.cc"],
     [("splitting of pages and of the root", "BTree::insert, splitRoot"), ("search for the next page", "BTree::next"), ("cache of pages written on flush", "BTree::flush, savePage")],
     "stateful property-based testing against std::map",
     "Histories over six instantiations with pages of four to eleven entries, so that a few dozen insertions build several levels; oracle: std::map.")

prop("C13", "k-d trees answer as a search over all points does",
     "For any set of points in any number of dimensions (duplicates, ties, points on a line, huge coordinates), built at once, inserted one by one or both, in memory or mapped to a file, a k-d tree returns for every query the nearest point, the k nearest in order and all points within a radius exactly as an exhaustive search does, with the payload of each point. "
     "Iterating visits every point once, also after later insertions, and a mapped tree reopened from its file answers the same.",
     ["inputs", "histories"], "all point sets and queries, all mixes of build, insert, query and iteration",
     "Tests query a few hundred regular points; pruning errors show only for particular geometries of points and query.",
     ["src/eckit/container/KDTree.h", "src/eckit/container/KDMapped.cc", "src/eckit/container/KDMapped.h", "src/eckit/container/KDMemory.h", "src/eckit/container/kdtree/KDNode.cc", "src/eckit/container/sptree/SPNode.cc", "src/eckit/container/sptree/SPNodeQueue.h", "src/eckit/container/sptree/SPIterator.h"],
     [("choice and side of the splitting plane", "KDNode::build, insert"), ("pruning by distance to the plane", "KDNode::nearestNeighbourX, kNearestNeighboursX, findInSphereX"), ("linking of nodes for iteration", "SPIterator, KDNode::linkNodes")],
     "property-based testing against exhaustive search",
     "Point sets on small lattices, lines, spread and over many magnitudes in one to three dimensions; each query is compared with a linear scan by distance, each iteration with the multiset of points.")

prop("C14", "Caches, sets, maps, queues and arrays behave as their mathematical models",
     "After any history of operations CacheLRU holds the most recently used entries up to its capacity and purges each evicted value exactly once, Cache honours expiry, DenseMap, DenseSet and Trie hold exactly the keys inserted with the last value, a BloomFilter never denies a member, and a CircularBuffer gives back every byte in order, also between threads. "
     "MappedArray, SharedMemArray and Recycler show the last content to every opener and zeros after a change of size, and ClassExtent reaches exactly the living objects.",
     ["inputs", "histories", "schedules"], "all histories of operations, all keys (of any bytes but zero), all buffer sizes and wrap-arounds, sizes on reopening",
     "Tests run one fixed sequence on each; errors sit in particular orders: overwrite after access, wrap-around before growth, keys below and above the range, merge with tails.",
     ["src/eckit/container/CacheLRU.cc", "src/eckit/container/Cache.h", "src/eckit/container/DenseMap.h", "src/eckit/container/DenseSet.h", "src/eckit/container/Trie.cc", "src/eckit/container/BloomFilter.cc", "src/eckit/container/MappedArray.cc", "src/eckit/container/SharedMemArray.cc", "src/eckit/container/Recycler.h", "src/eckit/container/ClassExtent.h", "src/eckit/io/CircularBuffer.cc"],
     [("order of use", "CacheLRU::moveToFront, trim"), ("range of children", "Trie::find, remove"), ("wrap-around and growth", "CircularBuffer::write, read"), ("last of equal keys", "DenseMap::sort"), ("header and resizing", "MappedArray::MappedArray")],
     "stateful model-based testing against standard containers",
     "Each container is driven by generated histories next to a model (list, map, set, string, vector) and compared completely after every operation.")

prop("C16", "Thread pools, queues and producers lose nothing and end under every schedule",
     "Under every interleaving each task given to a ThreadPool runs and is destroyed exactly once, wait() returns in every waiting thread only when all tasks given before it are done, errors of tasks are reported by waitForThreads(), resizing never loses a task, and destroying the pool waits for its threads. "
     "A bounded Queue delivers every element exactly once and in order per producer, never holds more than its limit, and close() and interrupt() wake every blocked thread; ProducerConsumer passes each item on exactly once and reports errors of either side; a pool of open files gives each file to one thread at a time, and to every one that asks in the end; a dispatcher handles every request exactly once; singletons are built once; the mutexes exclude and the conditions wake.",
     ["schedules", "histories", "inputs"], "all interleavings of producers, consumers, waiters, resizing and closing; numbers of threads, capacities; errors at any point",
     "Tests let the scheduler pick one of the interleavings; lost wake-ups and early returns need a rare one.",
     ["src/eckit/thread/ThreadPool.cc", "src/eckit/container/Queue.h", "src/eckit/runtime/ProducerConsumer.h", "src/eckit/thread/MutexCond.cc", "src/eckit/thread/Mutex.cc", "src/eckit/thread/ThreadSingleton.h", "src/eckit/thread/StaticMutex.cc", "src/eckit/io/FilePool.cc", "src/eckit/runtime/Dispatcher.h"],
     [("counting of tasks and threads", "ThreadPool::push, endTask, notifyStart"), ("limits and closing", "Queue::push, pop, close, interrupt"), ("turns of producer and consumer", "ProducerConsumer.h")],
     "model-based testing over generated thread programs with perturbed schedules (yields and sleeps injected at every lock operation)",
     "Programs of several threads are generated with the point and length of delays at each pthread lock operation; exactly-once, order, limits and termination (no hang within 30 s) are checked against counters of the harness. A failure is repeated to confirm it.")

prop("C24", "After a crash, recovery finds exactly the transactions begun and not ended",
     "After any history of begin, update and end in any number of processes, cut short at any point of any of them, recovery (and find()) in a new process meets each transaction begun and not ended exactly once, in the order of its identifier, with the content before or after an update that was in progress, and none that was ended. "
     "Identifiers are never given twice, also by several processes at once, and each ended transaction is found in the archive.",
     ["histories", "faults", "schedules"], "all histories; a crash before any file operation and in the middle of any write; processes at once",
     "Tests begin and end a few transactions in one process; the guarantee is about the crash points between the file operations.",
     ["src/eckit/transaction/TxnLog.cc", "src/eckit/transaction/TxnEvent.h", "src/eckit/container/MappedArray.cc", "src/eckit/serialisation/FileStream.cc"],
     [("temporary file and renaming", "TxnLog::update"), ("identifiers", "TxnLog::begin and RecoverThread"), ("which files are transactions", "TxnLog::find, RecoverThread")],
     "stateful model-based testing with crash injection at every system call on files (child processes that end there)",
     "Histories are run in child processes in which a wrapper of the file calls ends the process at a generated call, with part of the data written; a model of the committed states is compared with what recover() and find() give in the next process.")

prop("C25", "An SQL query gives exactly the rows its clauses define",
     "For every table, layout and query of the supported language, the rows delivered are those of the (joined) tables for which the condition is true, with every expression evaluated by the rules of arithmetic, comparison and missing values, DISTINCT removing exactly the repetitions, ORDER BY sorting stably with missing values first, aggregates computed per group over the values present. "
     "Operators bind as in the grammar and parentheses change nothing otherwise; simplifying the condition, executing the statement again, a change of the layout of the table half way and other queries before it make no difference; the count returned is the number of rows.",
     ["inputs", "histories"], "all tables, types, missing values, expressions, conditions, orders, aggregates, joins, layouts; repeated execution",
     "Tests run some forty fixed queries on one table without missing values.",
     ["src/eckit/sql/SQLSelect.cc", "src/eckit/sql/sqly.y", "src/eckit/sql/sqll.l", "src/eckit/sql/SQLDistinctOutput.cc", "src/eckit/sql/SQLOrderOutput.cc", "src/eckit/sql/expression/OrderByExpressions.cc", "src/eckit/sql/expression/function/DoubleFunctions.cc", "src/eckit/sql/expression/function/FunctionExpression.cc"],
     [("combinations of rows and their conditions", "SQLSelect::prepareExecute, processNextTableRow, processNextCombination"), ("missing operands", "DoubleFunctions.cc, FunctionAND, FunctionOR"), ("groups", "SQLSelect::writeOutput")],
     "differential testing of generated queries against a reference evaluator",
     "Tables and queries are generated as trees, printed with the parentheses needed (and some more), executed by the engine, and compared with an evaluator of the tree in the harness: exact rows in order for one table, the multiset of rows and the sorting for joins and groups.")

prop("C15", "The file cache hands out what was created for the key, within its bound",
     "For every history of requests to a CacheManager (several roots, a bound on the size, failing creators, files deleted by hand, files of others in the directories, a new manager on the same directories): a request gives the value that the creator made for that key, the creator is called exactly when no root holds the file, it writes to a temporary name and only complete files become visible, and a failure is passed on. "
     "When the files exceed the bound, the ones least recently used are removed first, as many as are needed and not the one requested; files that are not the cache's are left alone. Processes that ask at once all get the value.",
     ["histories", "schedules"], "all histories of keys, sizes and bounds; all interleavings of processes",
     "No test looks at the accounting, the eviction or several roots; bookkeeping errors show only after evictions and re-creations.",
     ["src/eckit/container/CacheManager.cc", "src/eckit/container/CacheManager.h", "src/eckit/container/BTree.cc", "src/eckit/io/FileLock.cc", "src/eckit/filesystem/LocalPathName.cc"],
     [("accounting and eviction", "CacheManagerBase::touch"), ("index built from the files", "CacheManagerBase::rescanCache"), ("creation under a lock, rename into place", "CacheManager::getOrCreate, stage, commit")],
     "model-based testing of generated request histories; forked processes",
     "A model keeps, per root, sizes and last uses (the clock is replaced by one the harness advances) and predicts hits, creations and evictions; after every step the directories are compared with it. Processes forked on the same directory with random delays must all read the value.")

prop("C21", "Path names denote the same place however they are written and combined",
     "Whatever components a path text has ('.', '..', empty, trailing '/'), normalising it, joining, appending, taking directory and base name, extension, and the path relative to another leave the place denoted unchanged and give a text without redundant components; relative paths lead from one to the other; comparisons are those of the texts; paths survive streams and copies. "
     "Variables in braces are expanded to what they stand for, and an unknown one is an error.",
     ["inputs"], "all path texts over the special components",
     "Tests list some twenty texts.",
     ["src/eckit/filesystem/LocalPathName.cc", "src/eckit/filesystem/PathName.cc", "src/eckit/filesystem/PathExpander.cc"],
     [("removal of redundant components", "LocalPathName::tidy, tidy_path_tokens, rebuild_path"), ("way from one to the other", "LocalPathName::relativePath")],
     "property-based testing against a canonical form of paths",
     "Texts are generated over a small set of components; a reference canonicaliser (a stack of names) decides what place a text denotes, and the results of the operations are compared by it.")

prop("C22", "File system operations do to the tree what they say and nothing else",
     "For every history of operations on paths (write, make directories, links, rename, remove, touch, sync, copy, unique and backup names, listing, matching): existence, kind, size, content, times, owner, mode, children, matches and links reported agree with a model of the tree, an operation that is not possible is an error and changes nothing, and nothing else in the tree changes. "
     "Names from unique() are new, also among threads and processes; texts of file modes are read as the modes written.",
     ["histories", "inputs"], "all histories over small trees with links; all modes; several processes",
     "Tests do single operations on paths they have just made.",
     ["src/eckit/filesystem/LocalPathName.cc", "src/eckit/filesystem/PathName.cc", "src/eckit/filesystem/FileMode.cc", "src/eckit/filesystem/StdDir.cc"],
     [("listing by kind", "LocalPathName::children"), ("matching", "LocalPathName::match"), ("new names", "LocalPathName::unique"), ("directories in between", "LocalPathName::mkdir")],
     "model-based stateful testing against a model tree, as an unprivileged user in a scratch directory",
     "A model tree of directories, files and links predicts success and result of every generated operation; after each the real tree is walked with plain system calls and compared completely.")

prop("C23", "URIs keep their parts through text, streams and copies",
     "A URI made from scheme, user, host, port, name, query and fragment gives a text that is parsed back into the same parts, whatever characters the parts contain (with the encoding of special characters); plain names with ':', '@', '#', '?' stay names; copies, streams and changes of scheme keep the rest. Any text either is refused or gives a URI whose text is parsed to an equal URI.",
     ["inputs"], "all parts and all texts",
     "Tests list a few dozen texts without special characters in the parts.",
     ["src/eckit/filesystem/URI.cc", "src/eckit/filesystem/URIManager.cc"],
     [("where the parts begin and end", "URI::parse"), ("special characters", "URI::encode, URI::decode")],
     "round-trip and metamorphic testing of generated URIs",
     "Parts are generated with and without special characters, put together by a reference writer, and compared part by part after parsing, printing, streaming and copying; arbitrary texts must reach a fixed point.")

prop("C26", "Messages are taken from a stream of data whole, in order, and once",
     "Whatever messages (GRIB editions 1 and 2, BUFR, metadata in between, of any length) lie in a data source, with or without junk before them and however the source cuts its reads, the reader gives each of them once, in order, with exactly its bytes, its offset and length, and then reports the end; a message that is cut short is an error and is never handed out. "
     "Messages kept beyond the next read stay valid, and every registered format recognises its own messages only.",
     ["inputs", "histories"], "all sequences and lengths of messages, junk, cuts of reads and buffer sizes",
     "Tests read one sample file.",
     ["src/eckit/message/Reader.cc", "src/eckit/message/Splitter.cc", "src/eckit/message/Message.cc", "src/eckit/message/Decoder.cc", "src/eckit/io/PeekHandle.cc", "src/eckit/io/BufferedHandle.cc"],
     [("choice of the format", "SplitterFactory::lookup"), ("peeking", "PeekHandle, BufferedHandle"), ("the content of a message", "Message, SharedMemoryMessageContent")],
     "model-based testing with generated sources",
     "A source is put together from generated messages and handed to the reader through handles that return any number of bytes per read; the list of messages handed out must be that of the model.")

prop("C27", "Linear algebra gives the results of the definitions on every backend",
     "Sparse matrices built from triplets or raw data, transposed, pruned, row-reduced, copied, saved and loaded, sent through streams or shared buffers represent exactly the entries given; their iterators visit every entry once with its row and column. "
     "Products (sparse and dense, vectors, matrices, scaled) on every backend are those of the definitions, and operands of wrong sizes are refused; tensors keep every element at its index under every layout conversion; operations never change a shared operand.",
     ["inputs", "histories"], "all shapes, sparsity patterns (empty rows included), values, histories of operations, backends present in the build",
     "Tests use one 3x3 matrix, without empty rows in between.",
     ["src/eckit/linalg/SparseMatrix.cc", "src/eckit/linalg/SparseMatrix.h", "src/eckit/linalg/sparse/LinearAlgebraGeneric.cc", "src/eckit/linalg/dense/LinearAlgebraGeneric.cc", "src/eckit/linalg/Matrix.cc", "src/eckit/linalg/Vector.cc", "src/eckit/linalg/Tensor.h"],
     [("compressed rows", "SparseMatrix::SparseMatrix(triplets), transpose, prune, rowReduction"), ("iteration over rows", "SparseMatrix::const_iterator"), ("layouts", "Tensor::toLayout")],
     "differential testing against a dense reference",
     "Histories of operations on generated matrices with small integer values (so that sums are exact) are compared with a dense reference after every step; products on every backend found at run time.")

prop("C32", "Map projections are invertible and keep what they promise",
     "For every parameter set, a point projected and back is the same place, whatever multiple of a turn its longitude has; conformal projections (Mercator, also on oblate figures, Lambert conformal conic, polar stereographic) scale alike in all directions, equal-area projections (Albers, Lambert azimuthal) keep areas, scale is true along the standard parallels, origins and central meridians are where the parameters put them. "
     "Rotations keep distances and take the South pole where they say, stretching divides the tangent of half the colatitude, compositions apply in order and are undone in the opposite order, and a projection made from the specification of one maps the same way.",
     ["inputs"], "all parameters and points (not on the cut of the map)",
     "Tests check a handful of points per projection, several projections have no test at all, and inverse errors hide when both directions share them.",
     ["src/eckit/geo/projection/Rotation.cc", "src/eckit/geo/projection/Mercator.cc", "src/eckit/geo/projection/LambertConformalConic.cc", "src/eckit/geo/projection/AlbersEqualArea.cc", "src/eckit/geo/projection/LambertAzimuthalEqualArea.cc", "src/eckit/geo/projection/PolarStereographic.cc", "src/eckit/geo/projection/Stretch.cc", "src/eckit/geo/projection/Composer.cc", "src/eckit/geo/projection/EquidistantCylindrical.cc", "src/eckit/geo/projection/LonLatToXYZ.cc"],
     [("cone constant and radii", "LambertConformalConic, AlbersEqualArea"), ("iterative inverse", "Mercator::calculate_phi"), ("rotation matrices", "Rotation::Rotation")],
     "property-based testing: round trips and differential geometry by finite differences",
     "Parameters and points are generated; the local scale along parallel and meridian is measured by finite differences and compared with the character of the projection; places are compared as vectors on the unit sphere.")

prop("C33", "Bounding boxes are sets of points on the sphere",
     "However its bounds are written (turns added, text, list, single bounds), a bounding box contains exactly the points between its parallels and its meridians, a pole counting as one point; inclusion, equality, emptiness, periodicity, being global and intersection (one of the shared ranges of longitude, in both orders of the operands) are those of the sets. Areas on sphere and spheroid are those of the surface. "
     "The box around a rotated one contains every point of it.",
     ["inputs"], "all boxes and points, special attention to shared edges, full turns, poles, degenerate boxes",
     "Tests list a few dozen boxes; the inclusion of boxes exchanged longitudes and latitudes without failing one.",
     ["src/eckit/geo/area/BoundingBox.cc", "src/eckit/geo/area/BoundingBox.h", "src/eckit/geo/figure/Sphere.cc", "src/eckit/geo/figure/OblateSpheroid.cc"],
     [("normalisation of bounds", "BoundingBox::BoundingBox, make_from_area"), ("sets", "BoundingBox::contains, intersects, empty, periodic"), ("extrema", "make_bounding_box")],
     "property-based testing against an exact set model on a lattice",
     "Bounds and points are multiples of 1/8 degree, where all arithmetic is exact; the model is a range of integers modulo a turn. Areas are compared with closed forms and numerical integration.")

prop("C34", "Points on the sphere: normalisation, distances and great circles",
     "Normalising angles and points keeps the place and meets the bounds; points written in different ways or nearer than the tolerance are equal, also across the meridian where longitudes start again; antipodes are opposite. Central angles and distances are those of the vectors, symmetric, obey the triangle inequality, and agree with the Cartesian ones; conversion to Cartesian coordinates on spheres and spheroids and back keeps the place. "
     "The latitude at a longitude and the longitudes at a latitude of a great circle lie on it and are all there are, and courses are the bearings at both ends.",
     ["inputs"], "all angles and pairs of points, poles, antipodes, meridians and equator included",
     "Tests check listed cities.",
     ["src/eckit/geo/PointLonLat.cc", "src/eckit/geo/PointLonLatR.cc", "src/eckit/geo/figure/Sphere.cc", "src/eckit/geo/figure/OblateSpheroid.cc", "src/eckit/geo/GreatCircle.cc", "src/eckit/geometry/Sphere.cc", "src/eckit/geometry/GreatCircle.cc", "src/eckit/geometry/EllipsoidOfRevolution.cc", "src/eckit/geometry/CoordinateHelpers.cc"],
     [("normalisation", "PointLonLat::make, normalise_angle_to_minimum"), ("intersections with parallels", "GreatCircle::longitude")],
     "property-based testing against vectors on the unit sphere",
     "Angles are generated on a lattice and freely, poles and special relations of two points included; every result is turned into unit vectors and compared with vector algebra; the older library of points (src/eckit/geometry) is held to the same.")

prop("C30", "Grid points, iterators, boxes and crops follow the definition of the grid",
     "For every grid (regular and reduced Gaussian, regular and reduced lat/lon, HEALPix in both orders, unstructured; any area, increments, reference, scanning order): the points, in order, are those of the definition; to_points, to_latlons, first and last point, size, shape, and the iterator (stepped, advanced by any amount, reset, compared) agree with each other; reordering is a permutation that leads from one order to the other. "
     "The bounding box contains every point and is a whole turn wide or reaches a pole exactly if the grid does; a crop has exactly those points of the grid that lie in the area.",
     ["inputs", "histories"], "all grid definitions and areas (westward, across the date line, empty rows, single rows), all sequences of iterator moves",
     "Tests list a few grids with numbers computed once; grids on areas with rows that are left empty are not among them.",
     ["src/eckit/geo/grid/Regular.cc", "src/eckit/geo/grid/Reduced.cc", "src/eckit/geo/grid/regular/RegularGaussian.cc", "src/eckit/geo/grid/reduced/ReducedGaussian.cc", "src/eckit/geo/grid/reduced/HEALPix.cc", "src/eckit/geo/range/Regular.cc", "src/eckit/geo/iterator/Reduced.cc", "src/eckit/geo/iterator/Regular.cc"],
     [("rows and their longitudes", "Reduced::longitudes, range::Regular::make_cropped_range"), ("moves over rows", "iterator::Reduced, iterator::Regular"), ("HEALPix ring and nested", "order::HEALPix, src/eckit/geo/order/HEALPix.cc")],
     "differential testing of generated grids against a reference written from the definitions",
     "Grid definitions are generated structurally; a reference computes the points from the definition (fractions of degrees, Gaussian latitudes from the Legendre polynomials, HEALPix from its formulae), filters them by the area and orders them; everything the grid gives is compared with it.")

prop("C31", "Grid specifications denote one grid and are stable",
     "The specification text a grid gives of itself builds an equal grid (same points, order, box, identifier), whose specification is the same text; grids compare equal, and have the same identifier, only if they have the same points. "
     "Names of grids and specifications that mean nothing are refused with an exception, and never make a grid of something else.",
     ["inputs"], "all grids of C30; all short texts of names and specifications",
     "Tests check the specification texts of some twenty grids.",
     ["src/eckit/geo/Grid.cc", "src/eckit/geo/grid/regular/RegularLL.cc", "src/eckit/geo/grid/reduced/ReducedLonLat.cc", "src/eckit/geo/area/BoundingBox.cc"],
     [("what a specification leaves out", "Grid::fill_spec, RegularLL::fill_spec"), ("a grid made from a text", "GridFactory::make_from_string"), ("identifier", "Grid::uid, calculate_uid")],
     "round-trip and metamorphic testing of generated grids",
     "Grids are generated as for C30, written, read again and compared point by point and by text; pairs of grids are compared through their points and their texts, which must agree on equality; texts are generated by mutation of valid names.")

prop("C35", "Polygons: membership, measure, clipping and simplification agree with geometry",
     "For every polygon (convex or not, repeated vertices, level edges, orientation) a point is in it exactly if the winding rule says so, vertices and edges are treated consistently, wherever the polygon starts and in whatever direction it runs; on the sphere, across the date line and at the poles likewise. "
     "Area and orientation are those of the definition; simplification keeps the area and drops exactly the points in between; clipping gives the intersection with the convex clip polygon; congruence is equality up to rotation of the list; boxes contain exactly the points within their limits.",
     ["inputs"], "all polygons on small lattices (so that degenerate positions occur), rotated, reversed, with repeated points",
     "Tests use a handful of rectangles.",
     ["src/eckit/geo/polygon/Polygon.cc", "src/eckit/geometry/polygon/LonLatPolygon.cc", "src/eckit/geometry/polygon/Polygon.cc", "src/eckit/geo/polygon/PolygonXY.cc", "src/eckit/geo/area/BoundingBoxXY.cc"],
     [("winding of a point", "LonLatPolygon::contains"), ("clipping by half planes", "PolygonXY")],
     "property-based testing against exact integer geometry, with metamorphic relations",
     "Vertices lie on small integer lattices, so the reference decides membership, area and intersection exactly in integers; rotations of the list, reversals, repeated points and shifts of longitude by whole turns must not change the answer.")

prop("C36", "Searches among grid points find what a search over all points finds",
     "For every grid and query point, geo::Search gives the nearest point, the k nearest and all within a radius, as found by comparing all points of the grid, whichever place the tree lives in (memory, a mapped cache file, anonymous mapped memory), whether the tree is built or found in the cache, by this process or by another one; processes that build the tree at the same time, or die while building it, never leave behind a tree that gives other answers.",
     ["inputs", "schedules", "crash points"], "all grids and query points; all loaders; concurrent builders; a process killed at any of its system calls while it builds",
     "Tests search one grid in memory, in one process.",
     ["src/eckit/geo/Search.cc", "src/eckit/geo/search/Tree.cc", "src/eckit/geo/search/TreeMapped.cc", "src/eckit/geo/search/TreeMappedFile.cc", "src/eckit/geo/search/TreeMappedAnonymousMemory.cc", "src/eckit/container/KDTree.h", "src/eckit/container/kdtree/KDNode.cc"],
     [("tree of a grid that is found in the cache", "TreeMappedCacheFile"), ("tree ready or not", "Tree::ready, Search")],
     "differential testing against brute force, with concurrent and crashing processes",
     "Queries on generated grids are compared with brute force over all points in the unit-sphere metric; loaders and cache directories are drawn; forked processes share the cache and one of them is killed at a drawn system call (interposed functions).")

prop("C43", "Index arithmetic: hypercubes, rendezvous hashing, small matrices and rounding",
     "HyperCube maps coordinates to indices one to one (also for cubes of more than 2^31 elements), coordinates and index are inverse to each other, and adding labels to a dimension moves every old element to the index of the same coordinates; several additions combine into one. "
     "RendezvousHash gives a permutation of its nodes that depends only on key and nodes, and when a node leaves or joins, the order of the others does not change. Inverses, determinants and products of Matrix3 follow the definitions.",
     ["inputs", "histories"], "all shapes and orders of up to six dimensions; all histories of additions; all node sets",
     "Tests use one or two small cubes.",
     ["src/eckit/utils/HyperCube.cc", "src/eckit/utils/HyperCube.h", "src/eckit/utils/RendezvousHash.cc", "src/eckit/maths/Matrix3.h", "src/eckit/maths/Functions.h"],
     [("index of coordinates", "HyperCube::indexOf, index, coordinates"), ("growth", "HyperCube::addToDimension"), ("rank of the nodes", "RendezvousHash::hashOrder")],
     "model-based and metamorphic testing",
     "A map from coordinates to labels is the model of a cube that grows; all indices of small cubes and random ones of large cubes are checked with arithmetic in 128 bits; node sets lose and win members and the orders are compared.")

prop("C44", "Locks exclude: file locks, ranges, semaphores between processes, even dying ones",
     "Whatever processes and threads do with FileLock, FileLocker (ranges, shared and exclusive), Semaphore and shared counters: no two hold what excludes each other at the same time, each that waits gets it in the end, a count kept under the lock is exact, and when a holder exits or is killed the lock is free again (or, for a semaphore, undone) - also when the lock file is unlinked at release.",
     ["schedules", "crash points"], "all numbers of processes and threads, holding times, orders, deaths",
     "Tests lock and unlock in one process.",
     ["src/eckit/io/FileLock.cc", "src/eckit/io/FileLock.h", "src/eckit/thread/Mutex.cc", "src/eckit/os/Semaphore.cc", "src/eckit/memory/Shmget.cc", "src/eckit/os/SharedInt.cc"],
     [("lock file that is unlinked by its holder", "FileLock::lock, unlock"), ("undo at exit", "Semaphore::down, SEM_UNDO")],
     "stress testing of generated schedules with an invariant in shared memory",
     "Processes and threads with generated numbers of rounds, holding times and deaths enter and leave; a counter in shared memory notes at every entry who is inside, and an increment of a shared number that is not atomic must lose nothing.")

prop("C39", "What one side of a connection sends is what the other side gets",
     "The bytes written to a TCP connection, in whatever pieces and in both directions at once, are read at the other end whole, in order and followed by the end of file, also after the connection has been handed to other socket objects, and after the sender has gone; a read is short only at the end; the same holds for typed values on streams over sockets, texts through a SockBuf, data handles on connections (TCPHandle, TCPSocketHandle, MultiSocketHandle, also cloned or sent through a stream; forward seeks), several connections used as one, connections through a proxy, and datagrams, which keep their limits. "
     "A service answers each of its clients, however many come at once; failures (nobody listens, nobody comes, the other side left, the proxy refuses) are reported by an exception or a result, not by a signal or a hang, and no file descriptor is left open. Endpoints, IP addresses and network masks follow their arithmetic.",
     ["inputs", "schedules", "histories"], "all contents, splits into reads and writes, buffer sizes, moves of ownership, numbers of streams, message sizes and clients; all IPv4 addresses and masks",
     "Tests open one connection and send a few small messages in lock step.",
     ["src/eckit/net/TCPSocket.cc", "src/eckit/net/TCPServer.cc", "src/eckit/net/MultiSocket.cc", "src/eckit/net/TCPStream.cc", "src/eckit/net/UDPClient.cc", "src/eckit/net/UDPServer.cc", "src/eckit/net/NetService.cc", "src/eckit/net/ProxiedTCPClient.cc", "src/eckit/net/ProxiedTCPServer.cc", "src/eckit/net/NetMask.cc", "src/eckit/net/Endpoint.cc", "src/eckit/io/TCPSocketHandle.cc", "src/eckit/io/TCPHandle.cc", "src/eckit/io/MultiSocketHandle.cc", "src/eckit/io/SockBuf.cc"],
     [("loops over partial transfers", "TCPSocket::read, TCPSocket::write"), ("ownership of a descriptor", "TCPSocket::operator=, TCPSocket::TCPSocket(TCPSocket&)"), ("messages dealt out to streams in turn", "MultiSocket::read, MultiSocket::write")],
     "model-based testing of generated exchanges over loopback connections and socket pairs",
     "Both sides run as threads on loopback connections (or socket pairs where ports would run out) and follow a generated script; what is received is compared with what was sent, file descriptors are counted before and after each case.")

prop("C40", "Web requests reach their resource as sent, and answers arrive as written",
     "From a request, a resource is given the method, the decoded path, all parameters (of the query and of a form), the headers (whatever the case of their names, also empty ones) and the content, byte for byte; what follows the request is left in the stream; encoding for an address and decoding are inverse to each other; a link leads to what it was made for; "
     "a request that is cut short or malformed is refused or seen as far as it goes: never a hang, never content that was not sent, never memory beyond its text. "
     "Each request is handled by the resource with the shortest registered address on its path, by its method, or refused with the status of its kind of failure (not found, no permission, not implemented, the status of the exception), in which case nothing written before the failure is sent; the answer has its status line, its headers and a Content-Length that is the length of the body; texts are escaped and tags are not, and no text of a request or of a message becomes a header; files outside the served directory are not shown, those inside are shown byte for byte.",
     ["inputs", "histories"], "all requests (bytes, encodings, forms, truncations, mutations), all pages made of texts, tags and data, all sets of resources",
     "Tests parse two URLs; no test sends a request or reads an answer.",
     ["src/eckit/web/Url.cc", "src/eckit/web/Html.cc", "src/eckit/web/HttpStream.cc", "src/eckit/web/HttpResource.cc", "src/eckit/web/HttpService.cc", "src/eckit/web/FileResource.cc", "src/eckit/net/HttpHeader.cc"],
     [("request parser", "Url::parse"), ("escapes in addresses", "Html::addHex, Html::removeHex"), ("choice of the resource", "HttpResource::dispatch"), ("escaped output", "HttpBuf::sync, HttpStream::dontEncode")],
     "property-based testing: generated requests and pages against a model, with mutated and truncated requests",
     "Requests are built from a model (segments, parameters, headers, content) with drawn encodings, and parsed; pages are drawn as lists of pieces whose output the model knows; answers are parsed by a strict reader; resources are registered and called directly and through HttpUser on a connection.")

prop("C41", "Whatever is written to a log channel arrives at its targets, whole and in order",
     "Every character written to a channel, in whatever pieces and line lengths, arrives at each of its current targets (files, streams, callbacks, strings, the message channel, rotating files by day), in order and once, transformed as the chain of targets says (prefix, indentation per line, time stamp, colour) and line by line where the target works by lines; flushing, replacing, stacking and resetting targets, formatting state of the stream and the end of the channel or of the target lose nothing. "
     "Lines written by several threads (each its own channel) or processes to one file are never lost, merged or torn. Numbers, sizes, times, progress and plurals print as their definition says and leave the formatting of the stream as it was; messages for syslog are well formed for any content.",
     ["inputs", "schedules", "histories"], "all texts (lengths around the buffer sizes, control characters), all stacks of targets and their changes, all numbers and times",
     "Tests write a few short lines to each target; none is longer than the buffer of a line based target.",
     ["src/eckit/log/Channel.cc", "src/eckit/log/ChannelBuffer.cc", "src/eckit/log/LineBasedTarget.cc", "src/eckit/log/PrefixTarget.cc", "src/eckit/log/IndentTarget.cc", "src/eckit/log/TimeStampTarget.cc", "src/eckit/log/FileTarget.cc", "src/eckit/log/TeeTarget.cc", "src/eckit/log/RotationTarget.cc", "src/eckit/log/UserChannel.cc", "src/eckit/log/TimeStamp.cc", "src/eckit/log/SysLog.cc", "src/eckit/log/Bytes.cc", "src/eckit/log/BigNum.cc", "src/eckit/log/Seconds.cc"],
     [("buffer of lines", "LineBasedTarget::write"), ("stack of targets", "ChannelBuffer::setTarget, ChannelBuffer::addTarget"), ("a file that is shared", "FileTarget::write")],
     "model-based testing of generated histories of writes and target changes",
     "A model keeps what each target should have got; after a generated history of writes, flushes and changes of targets it is compared with the files and texts; the clock of time stamps and rotation is replaced; writers to one file are threads and forked processes.")

prop("C42", "A tool sees exactly the options and arguments of its command line",
     "For every set of declared options (flags, numbers, texts, paths, vectors, several values, choices, with and without defaults) and every command line: each option has the value that the line gives it last, or its default; what is no option is an argument, in order; unknown options, missing or excess arguments, and texts that do not fit the type of their option are refused; the configuration made of the line, and queries by type, agree with it.",
     ["inputs"], "all sets of options and all command lines: separators, order, repetition, empty values, values that look like options",
     "Tests use one set of options and some fifteen command lines.",
     ["src/eckit/option/CmdArgs.cc", "src/eckit/option/SimpleOption.cc", "src/eckit/option/VectorOption.cc", "src/eckit/option/MultiValueOption.cc", "src/eckit/option/FactoryOption.cc", "src/eckit/option/Option.cc"],
     [("walk over the line", "CmdArgs::init"), ("values by type", "SimpleOption::set, VectorOption::set")],
     "property-based testing of generated declarations and command lines against a reference parser",
     "Declarations are drawn, then a command line is built from assignments to them together with the expected outcome; damaged lines (unknown names, wrong counts, wrong types) must be refused.")

prop("C38", "Lists and maps in fabric-attached memory keep their contents",
 "A FamList holds what was pushed and not removed, in order, forwards and backwards and however it is reopened, and a FamMap holds what was inserted, assigned and not erased, each entry met once; objects, handles and atomic operations give back what was written and refuse what lies beyond the object. Under any interleaving, threads that push or insert lose nothing, readers meet every element that stays, the removal of an element that has a successor leaves a list like any other, and the lock of a map admits one holder at a time.",
 ["inputs", "schedules", "histories"],
 "operations over up to 3 lists or maps in 2 regions, keys that share buckets, 2-4 threads, schedules at the granularity of one memory operation, clocks that advance within a schedule",
 "The tests fork four processes and let the machine pick one schedule; what is lost depends on a switch between two particular memory operations of one push or erase.",
 ["src/eckit/io/fam/FamList.cc", "src/eckit/io/fam/FamListIterator.cc", "src/eckit/io/fam/FamMap.cc", "src/eckit/io/fam/FamMapIterator.cc", "src/eckit/io/fam/FamObject.cc", "src/eckit/io/fam/FamRegion.cc", "src/eckit/io/fam/FamHandle.cc", "src/eckit/io/fam/FamPath.cc", "src/eckit/io/fam/FamName.cc", "src/eckit/io/fam/FamSession.cc"],
 [("lock-free list", "FamList::pushFront, FamList::pushBack, FamList::erase"), ("hash map of lists", "FamMap::insert, FamMap::insertOrAssign, FamMap::lock"), ("reading and writing an object", "FamHandle::read, FamHandle::write")],
 "model-based testing of operation sequences; generated thread schedules, run one memory operation at a time (the harness's pthread_mutex_lock hands over to the thread the schedule names)",
 "harness/fam.cc on the mock memory of the repository. `list`, `map` (three key sizes; keys chosen to collide), `objects`, `handles`, `names` compare each operation with a model. `pushes`, `removals`, `inserts`, `locked` run 2-4 threads under a deterministic scheduler: every operation on the memory is a scheduling point, the schedule is generated (few switches anywhere, or many) and shrinks with the case; afterwards nothing may be lost or doubled, each thread's order holds, size() agrees, backwards is forwards, readers met what stayed, and the list must take further removals. `locked` moves the clock as well. Removals that race with pushes at the same end are a known finding (no deletion mark in the links): not generated, and reproduced from a fixed set of interleavings.")

prop("C45", "Specifications hold typed values by name, and layers hide what is below",
     "A custom specification answers every question - is there such a name, what is its value as any type that can hold it exactly, which names are there - as a map by case-insensitive names does, whatever was set, replaced or read before; its text (JSON) read again gives the same names and values, whole numbers and fractions alike; one specification includes another exactly if each name of the other is there with an equal value. "
     "A layered specification answers with the first of its layers, front to back, that knows the name, unless the name is hidden; adding layers, also layers that are themselves layered, hiding and unhiding change nothing else. "
     "A registry of generators builds by name or by matching specification exactly what is registered, and refuses names that are unknown, taken or match twice.",
     ["inputs", "histories"], "all names, values of all types, texts, sequences of set, push, hide and regist",
     "Tests set a few values of each type once and stack one layer.",
     ["src/eckit/spec/Custom.cc", "src/eckit/spec/Layered.cc", "src/eckit/spec/Layered.h", "src/eckit/spec/Spec.cc", "src/eckit/spec/Generator.h"],
     [("typed values and the conversions that keep them", "Custom.cc: get_t_s, get_t_v"), ("the layer that answers", "Layered::has, Layered::get_t"), ("match of a specification", "GeneratorT::match, regist")],
     "model-based testing of generated histories against a map",
     "Names differ in case only now and then; values are numbers at the limits of their types, texts, booleans and vectors of them; every step is made on the object and on a map, and all names are asked for with all types. Defects found this way and kept as known findings (their folder, src/eckit/spec, counts as one of tests, which no commit may change): specifications with a flag or a nested one are not equal to themselves; a whole number of a text that does not fit an int is truncated; a nested specification in a layer behind the first is refused. The subs known_equality, known_int and known_layers show them; the others leave exactly these out.")

prop("C37", "A communicator of one process gives back what was sent, in order and whole",
     "On the communicator of a single process every collective operation (broadcast, gather, scatter, all-to-all, reductions, variable counts and displacements) gives what its definition gives for one process, for any type, count and displacement, in place or not; a message is received once, in the order sent among those of its tag, whole, whenever its buffer is reused after the sending, and by any tag in the order of sending; probing tells what the next receive gets; one that does not fit is refused. "
     "Requests complete when their message is there; messages of threads that share the communicator, each with its tag, are not mixed. "
     "Communicators are found by the names they were registered with, split and freed without touching others, and the default is the one that was set last; a file that is broadcast arrives byte for byte.",
     ["inputs", "histories", "schedules"], "all types, counts, displacements, sequences of sends, receives and probes, sets of communicators",
     "Tests run each operation once with one value; no test has two messages waiting.",
     ["src/eckit/mpi/Serial.cc", "src/eckit/mpi/SerialRequest.cc", "src/eckit/mpi/SerialData.h", "src/eckit/mpi/Comm.cc", "src/eckit/mpi/Comm.h", "src/eckit/mpi/DataType.cc", "src/eckit/mpi/Request.cc", "src/eckit/mpi/Status.cc"],
     [("messages that wait", "SerialRequestPool, Serial::send, Serial::receive"), ("displacements in copies of one process", "Serial::scatterv, allToAllv, gatherv"), ("registry of communicators", "Comm.cc: Environment")],
     "model-based testing of generated histories against queues of messages",
     "Sends, receives (by tag, any tag, with and without a request) and probes are drawn with up to a dozen messages waiting, and made on queues as well; buffers are overwritten after a send. MPI itself is not in this sandbox, so only the communicator of one process is decided. Defects found this way and repaired: messages held as a pointer into the sender's memory, a longer message written beyond the receiver's buffer, any-tag receives out of order, displacements that were ignored, a barrier's request that never completed.")

prop("C46", "Work given out by a producer is done once each, by whichever workers there are",
     "However many workers there are, whenever they join, fail in a job or disappear between jobs, every job of a producer on TCP connections reaches exactly one worker, whole and whatever its size, and each worker gets its jobs in the order they were produced; a worker that fails in a job is told so and goes on. "
     "At the end every worker that is still there is shut down once and its last report reaches the producer as written, once; the producer ends. "
     "A message is a stream in memory that grows with what is written, and gives the same when rewound or copied to another.",
     ["inputs", "histories", "schedules"], "all job sizes, numbers and moments of joining and leaving of workers, failures",
     "No test starts a producer.",
     ["src/eckit/distributed/tcp/TCPTransport.cc", "src/eckit/distributed/Message.cc", "src/eckit/distributed/Producer.cc", "src/eckit/distributed/Consumer.cc", "src/eckit/distributed/Actor.cc", "src/eckit/distributed/Transport.cc"],
     [("the worker that gets a job", "TCPTransport::send, cleanup"), ("end of all workers", "TCPTransport::sendShutDownMessage"), ("a message that grows", "Message::write, reserve")],
     "stress testing of generated schedules with an invariant over the history",
     "A producer and up to four workers run as threads on loopback connections; contents, moments of joining, failures and departures are drawn; who saw which job is written down and must be a partition of the jobs. A worker that leaves in the middle of a job takes the job with it, which is not decided. Defect found this way and repaired: a job of more than a megabyte was lost, with its worker.")

prop("C47", "The registers of a cluster's nodes and disks say what was reported last",
     "After any history of reports, losses, returns, expiry, forgetting and transfers the register of nodes has exactly the nodes reported and not forgotten, each with the host, port, attributes, and state of its last report; look-ups by name, host or attributes give only such nodes, and any() one that is available whenever there is one. "
     "The register of disks has exactly the disks in the last report of each node and type, and says of each path the node whose disk holds it; a register that is sent and received is the same. "
     "This holds when several processes report at once.",
     ["histories", "inputs", "schedules"], "all histories of operations on both registers over names of any length they can hold, several types and attributes, with the clock moving; registers received from another and updated further; several processes reporting at once",
     "No test calls these registers; their order in the shared file, stale entries and the clock matter only after longer histories.",
     ["src/eckit/io/cluster/ClusterNodes.cc", "src/eckit/io/cluster/ClusterDisks.cc", "src/eckit/io/cluster/NodeInfo.cc", "src/eckit/container/MappedArray.cc"],
     [("report, loss and look-up of nodes", "ClusterNodes::refresh, offLine, onLine, forget, any, lookUp"), ("disks of a node", "ClusterDisks::update, load, node, receive"), ("order of the shared array", "ClusterNodeEntry::operator<, std::sort, std::lower_bound")],
     "stateful model-based testing over generated histories with a simulated clock and forked processes",
     "Histories run against the real shared files and a map from names to the last report; after each operation all nodes (or the disks of each type) are compared, and at the end the JSON and the list. Several processes report at once and the union is compared.")

prop("C48", "A file space selects one of its file systems, by its strategy",
     "Selecting a file system gives one of those of the space that is available and can be measured, and asks to retry exactly if there is none: leastUsed one with the most free space, leastUsedPercent one with the most in per cent; the other strategies choose among those used at most 99 per cent (and as leastUsed if there are none), roundRobin each in its turn, pureRandom, weightedRandom and weightedRandomPercent in proportion to one, their free space and their free per cent, binnedLeastUsed evenly among those within a twentieth of the range below the most free. "
     "The space has the disks its configuration lists, in their order, and follows the file whenever it changes or goes; available disks are created, and left out if that fails; a path is owned exactly if it is on the mount point of an available one, which sameFileSystem then gives. "
     "A file system reports its size, free space and usage as last measured, and whether it is off line.",
     ["inputs", "histories", "faults"], "all sizes, states and faults of up to eight file systems, sequences of changes to disks and configuration",
     "Tests of the repository ask binnedLeastUsed and the random strategies for a few sets of local paths; none has a disk that is down, fails or is full.",
     ["src/eckit/filesystem/FileSpace.cc", "src/eckit/filesystem/FileSpaceStrategies.cc", "src/eckit/filesystem/FileSystem.cc"],
     [("the candidates of a selection", "FileSpaceStrategies.cc: findCandidates"), ("the choice by shares", "FileSpaceStrategies.cc: chooseByProbability"), ("reading the configuration again", "FileSpace::load, FileSpace::find")],
     "model-based testing over mock file systems registered with the path factory, whose sizes, states and faults are generated; shares within seven standard deviations",
     "harness/filespace.cc: `select` compares each choice with all file systems of the set; `rounds` goes around; `shares` counts 400 draws; `space` writes, touches and removes the configuration, changes disks and compares the list, the directories made, owners and selections with a model; `usage` updates one file system. The cluster's register of disks is empty here (C47).")

prop("C49", "Quadrature, rows and spaced values of grids follow their definitions",
     "For every number N the Gaussian latitudes are the roots of the Legendre polynomial of degree 2N, in the order asked for and symmetric, and the weights integrate every polynomial up to degree 4N-1; the rows of a classical or octahedral grid are symmetric, and those in use for that N; unknown ones are refused. "
     "linspace and arange give the values of their definition, ends included, and a crop of a monotonic sequence is exactly the range of the values within the limits; a sequence reversed twice is itself. "
     "What is computed once and kept is given again to whoever asks with the same arguments, and to no other, also when several threads ask at once or what is kept is dropped in between; the footprint is that of what is kept; a record that could not be loaded is not kept; a grid of spherical harmonics has its number of coefficients, describes itself by its truncation and has no points.",
     ["inputs", "histories", "schedules"], "all numbers of latitudes (to 320, thorough 700; rows to 8000), all limits and steps, several threads",
     "Tests compare the latitudes and weights of three or four grids with numbers computed once; no test has two threads.",
     ["src/eckit/geo/util/gaussian_latitudes.cc", "src/eckit/geo/util/gaussian_quadrature_weights.cc", "src/eckit/geo/util/linspace.cc", "src/eckit/geo/util/arange.cc", "src/eckit/geo/util/monotonic_crop.cc", "src/eckit/geo/util/reverse.cc", "src/eckit/geo/util/reduced_classical_pl.cc", "src/eckit/geo/util/reduced_octahedral_pl.cc", "src/eckit/geo/cache/MemoryCache.h", "src/eckit/geo/cache/RecordCache.h", "src/eckit/geo/grid/SphericalHarmonics.cc"],
     [("Newton's iteration for the roots", "gaussian_latitudes.cc: gaussian_latitudes"), ("what is computed once", "MemoryCache.h: MemoryCacheT"), ("range of values", "monotonic_crop.cc: monotonic_crop")],
     "property-based testing against the definitions (Legendre recurrence in extended precision, brute force), and of real threads",
     "harness/geoseq.cc: `gauss` takes the distance of each latitude from the nearest root, compares each weight with 2/((1-x^2)P'^2) and even moments with 1/(k+1); `rows` has the invariants of the rows (symmetric, not shorter towards the equator, factors 2, 3 and 5) and a checksum of each published table; `spaced`, `stepped`, `crop`, `kept`, `harmonics` compare with definitions; `records` keeps records of a loader that fails at times; `together` has threads that ask for the same values at once.")

prop("C50", "Metrics are reported as set, under their prefixes, groups and items",
     "While metrics are collected, the report is one JSON object that holds, besides the process and its times, exactly the values last set under each name, names with dots and prefixes as nested objects; a group is a list with one object per item in which something was set, in the order of the items, and holds what was set in it, also before and after groups and prefixes nested in it; a group that is opened again goes on with its list. "
     "Metrics sent to another process arrive whole and are added under the prefix they are received in; threads that set metrics at once lose none. "
     "Without a collector setting metrics does nothing; a second collector at a time is refused.",
     ["histories", "schedules"], "all sequences of values of any type, prefixes, groups and items, nested in any way; several threads",
     "Tests set one value per item and nest groups directly; none sets a value beside a nested group.",
     ["src/eckit/runtime/Metrics.cc"],
     [("what an item holds so far", "Metrics.cc: MetricsCollector::item, MetricsCollector::pop"), ("the name under its prefixes", "Metrics.cc: MetricsCollector::full"), ("names as paths", "Metrics.cc: cleanPaths")],
     "model-based testing of generated histories",
     "harness/metrics.cc: `metrics` opens and closes prefixes, groups and items as scopes, sets values of all types and compares the report after any step with that of a model; `sent` goes through a stream; `threads` sets from several at once. A defect found this way and repaired: a group within a group lost what was set before it in the same item. Names that are a value and a path at once are outside the domain.")

prop("C18", "Reading through data handles gives the bytes of the source",
     "Any composition of reading handles (files, memory, memory-mapped, standard I/O, pooled, parts, multi, buffered, peeking, auto-closing, statistics, shared memory) presents exactly the bytes its parts denote, for any history of read, seek, skip, position, rewind, restart and peek that it supports, also when several handles of one file are interleaved. "
     "estimate() and size() agree with these bytes, copying with copyTo or saveInto transfers them all, and handles that are encoded and reanimated read the same.",
     ["inputs", "histories"], "all compositions and histories of operations",
     "Tests read a fixed file front to back with single handles.",
     ["src/eckit/io/DataHandle.cc", "src/eckit/io/FileHandle.cc", "src/eckit/io/PartFileHandle.cc", "src/eckit/io/PartHandle.cc", "src/eckit/io/MultiHandle.cc", "src/eckit/io/BufferedHandle.cc", "src/eckit/io/PeekHandle.cc", "src/eckit/io/MemoryHandle.cc", "src/eckit/io/MMappedFileHandle.cc", "src/eckit/io/PooledHandle.cc", "src/eckit/io/StdFile.cc", "src/eckit/io/SeekableHandle.cc"],
     [("offset/length bookkeeping", "PartFileHandle, PartHandle"), ("part switching", "MultiHandle::read"), ("buffer position", "BufferedHandle::read"), ("shared file pool", "PooledHandle/PoolHandleEntry")],
     "model-based testing of random handle compositions against a byte-string model",
     "Compositions up to three levels of 13 kinds over generated files; after each operation the returned bytes, position and length are compared with the model string.")

prop("C19", "What is written through data handles arrives, or the writer is told",
     "Any history of write, seek, flush and rewind over any composition of writing handles (files, raw, stdio, memory, asynchronous, buffered, double-buffered, tee, multi, iostream adaptors) leaves exactly the bytes of the model in every target after close. "
     "When a write or read fails at any point, the failure is reported by the failing call or at the latest by close, nothing after the failure point is written as if it had succeeded, and a restarted transfer completes without loss or duplication.",
     ["histories", "fault_sequences", "schedules"], "all histories, all failure points, thread schedules of the asynchronous and double-buffered handles",
     "Tests never fail a write at a chosen point and do not mix buffered writes with seeks.",
     ["src/eckit/io/AsyncHandle.cc", "src/eckit/io/BufferedHandle.cc", "src/eckit/io/DblBuffer.cc", "src/eckit/io/TeeHandle.cc", "src/eckit/io/MultiHandle.cc", "src/eckit/io/MemoryHandle.cc", "src/eckit/io/FOpenDataHandle.cc", "src/eckit/io/HandleBuf.cc", "src/eckit/io/BufferCache.cc", "src/eckit/io/ResizableBuffer.h", "src/eckit/io/FileHandle.cc", "src/eckit/io/RawFileHandle.cc", "src/eckit/io/AIOHandle.cc"],
     [("flush at seek/close", "BufferedHandle"), ("failure passed from writer thread", "AsyncHandle::complete"), ("restart and retry", "DblBuffer::copy")],
     "stateful model-based testing with injected failures at generated points",
     "Compositions of 11 writing kinds with generated histories; a failing handle refuses at a generated byte; transfers with failing readers and restarts; stdio and iostream adaptors; oracle: the byte string each target must hold.")

"""The property list.  tools/gen.py writes properties.jsonl and MANIFEST.json from it."""
RT = 'omniscidb/QueryEngine/RuntimeFunctions.cpp'
RTH = 'omniscidb/QueryEngine/RuntimeFunctions.h'
TECH = 'contract-based deductive verification of the LLVM IR the project build makes from the source (own VC generator; z3/cvc5)'
NOTE = ('Pre/postconditions and frame conditions on the real functions, loop invariants where there are loops; every obligation generated from '
        "/repo's current source is discharged for all inputs. Partial correctness (termination is not proved). Trusted: clang front end, the VC generator in engine/, z3/cvc5. ")

P = []


def prop(id, title, statement, over, text, why, files, mech, note='', **kw):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, **kw))


prop('C01', 'NULL propagates through SQL arithmetic and nothing else becomes NULL-checked',
     'For every operand width and nullability variant, an arithmetic operator (+ - * / %, unary minus, scaled decimal division) evaluated by the query runtime '
     'returns the NULL value exactly according to its NULL operands, and otherwise the two\'s-complement (or IEEE) result of the operator. '
     'No operand, including the extreme values of its type, produces another result.',
     ['inputs'], 'all operand values and NULL sentinels of each of the integer and floating widths, for each NULL-handling variant',
     'The existing tests never call these routines (they are inlined in generated code that needs the execution engine); even a full query test samples a few values per type, '
     'while wrong results appear only for one width, one NULL position or an extreme value.',
     [RT], [('NULL-aware arithmetic routines generated per type', RT)])
prop('C02', 'Comparisons and AND/OR/NOT follow SQL three-valued logic',
     'A comparison between a nullable and a possibly nullable operand yields unknown whenever an operand that the variant treats as nullable is NULL, and the exact truth value of the comparison otherwise, '
     'for every integer and floating type. NOT, AND and OR over {true, false, unknown} return exactly the SQL three-valued truth table.',
     ['inputs'], 'all operand values, NULL sentinels and truth values',
     'Existing tests do not call these routines; sampling cannot cover the combination of type, NULL side and value.',
     [RT], [('NULL-aware comparison and logical routines', RT)])
prop('C03', 'Casts, decimal rescaling, rounding and bucketing are exact and keep NULL',
     'Casting between numeric types maps NULL to the NULL of the target type and every other value to the target representation of the same value; decimal rescaling and integer division '
     'round as documented (half away from zero for scale-down, floor for floor division) for every value incl. negatives; and a value is assigned to the histogram bucket '
     'whose half-open interval contains it.',
     ['inputs'], 'all values, scales and NULL sentinels (bucketing: all finite bounds with positive width)',
     'Existing tests do not reach these routines; off-by-one rounding appears only at boundary values.',
     [RT], [('cast_*_nullable, scale_decimal_*, decimal_floor/ceil, floor_div_*, width_bucket*', RT)])
prop('C04', 'Aggregate accumulation adds exactly the non-NULL rows',
     'Feeding one row to COUNT, SUM, MIN, MAX, ANY/SINGLE VALUE or projection changes the accumulator to exactly the aggregate of the previous state and that row; a NULL row leaves it unchanged '
     'and the first non-NULL row replaces the initial NULL. A single-value aggregate reports an error exactly when two different values are seen, AVG is sum/count or NULL for no rows, and no other memory is written.',
     ['inputs', 'histories'], 'all accumulator states, values and NULL sentinels, hence (by induction on rows) all row histories',
     'Existing tests cover no aggregate step; each is an inductive step that must hold for every accumulator state.',
     [RT], [('agg_* and agg_*_skip_val steps, checked_single_agg_id*, load_avg_*, agg_id_varlen', RT)])
prop('C05', 'Distinct-count sets hold exactly the values seen, and merging is set union',
     'An exact distinct-count set contains a value if and only if that value was inserted, NULLs are never inserted, its size is the number of distinct values, and merging two partial results gives exactly the union. '
     'An approximate distinct-count sketch keeps per register the maximum rank of the hashes seen, so merging sketches register-wise gives the sketch of the combined input; membership tests against an IN-list bitmap return exactly the stored bit, false outside its range and unknown for NULL.',
     ['inputs', 'histories'], 'all bitmap contents, sizes, values and registers; by induction all insertion histories and merge orders',
     'Tests insert a few values; a wrong bit, word remainder or register shows up only for particular sizes and positions.',
     [RT, 'omniscidb/ResultSet/CountDistinct.h', 'omniscidb/ResultSet/HyperLogLog.h', 'omniscidb/ResultSet/CountDistinctDescriptor.h', 'omniscidb/QueryEngine/HyperLogLogRank.h'],
     [('bitmap and HyperLogLog update steps, membership test, linear counting', RT), ('bitmap size/union, register-wise union, set merge', 'omniscidb/ResultSet/CountDistinct.h')],
     note='Hash functions are uninterpreted; the hash-set representation and the floating-point estimate are not covered; the merge is proved for the CPU descriptor with one sub-bitmap.')

GB = 'omniscidb/QueryEngine/GroupByRuntime.cpp'
prop('C06', 'Group-by hash tables give each key exactly one slot and lose no group',
     'Looking up a key in a group-by hash table (row-wise or columnar, 4- or 8-byte keys) returns the first slot, in probe order from its hash, that is empty or already holds that key; the whole key is stored there if the slot was empty, and no other part of the table changes. '
     'When every slot holds another key the lookup reports "full" and changes nothing. Hence equal keys always share a group, different keys never do, and no group is lost, for every table content and hash value, also when a watchdog may interrupt the search.',
     ['inputs', 'histories'], 'all table contents, sizes, keys of 1 to 4 columns, hash values and watchdog answers; by induction all insertion histories',
     'The existing tests never run these routines; wrap-around, full tables and colliding keys appear only for particular hash values and fill levels.',
     [RT, GB], [('open-addressing lookup-or-insert', GB), ('slot match-or-claim step', RT)],
     note='The hash function is an arbitrary function of the key bytes; key column count is checked for 1 to 4.')
prop('C07', 'Direct-indexed group-by and projection slots: one row per key, stored once',
     'For every key in the range a perfect-hash (direct-indexed) group-by was planned for, the row returned is the one at (key - min)/bucket, multi-column keys go to the row of their combined index, the key columns are written only on first use, and nothing else in the buffer changes. '
     'A projection writes row ids at consecutive positions and reports "no room" exactly when the output is full. The per-thread error slot keeps the first positive error.',
     ['inputs', 'histories'], 'all keys, range bounds, bucket sizes, row sizes and buffer contents',
     'No existing test reaches these routines; an off-by-one or a wrong stride appears only for particular shapes.',
     [RT, GB], [('direct-indexed slot computation', GB), ('perfect-hash rows and columns, error slot', RT)])
prop('C08', 'Join probes return exactly the matching build row and never match NULL',
     'Probing a one-to-one join table returns the row id stored for the probe key when the key lies in the table range (after bucketing) and "no match" otherwise; a NULL probe key never matches, except under IS NOT DISTINCT FROM where it matches exactly the slot reserved for NULL. '
     'Probing a keyed (composite) table returns the payload of the first slot in probe order holding the key, and "no match" when an empty slot comes first or no slot holds it, for every table content, hash value and wrap-around.',
     ['inputs'], 'all keys, NULL sentinels, range bounds, bucket sizes, table contents and hash values; composite keys of 1 to 4 components',
     'No existing test probes these tables; wrap-around and NULL translation appear only for particular keys and table contents.',
     [GB, 'omniscidb/QueryEngine/RuntimeFunctions.cpp', 'omniscidb/QueryEngine/JoinHashTable/Runtime/JoinHashImpl.h', 'omniscidb/QueryEngine/JoinHashTable/Runtime/JoinHashTableQueryRuntime.cpp'],
     [('perfect join-table probes', GB), ('keyed join-table probes', 'omniscidb/QueryEngine/JoinHashTable/Runtime/JoinHashTableQueryRuntime.cpp')],
     note='The hash function is an arbitrary function of the key bytes.')
prop('C09', 'Decoding a column value returns the value that was stored',
     'Reading row i of a fixed-width column returns exactly the stored value, sign- or zero-extended according to the encoding; a difference-encoded value is the baseline plus the stored delta, a days-encoded date is its day number times 86400 seconds, and the NULL of the narrow encoding becomes the NULL of the logical type. '
     'This holds for every width, every row position and every stored bit pattern.',
     ['inputs'], 'all stored bit patterns, widths, row positions, baselines and NULL sentinels',
     'The decoders are only used inside generated code, which the existing tests do not run.',
     ['omniscidb/QueryEngine/DecodersImpl.h'], [('fixed-width, unsigned, difference, small-date and floating decoders', 'omniscidb/QueryEngine/DecodersImpl.h')])

DT = 'omniscidb/QueryEngine/DateTruncate.cpp'
XT = 'omniscidb/Utils/ExtractFromTime.cpp'
prop('C10', 'DATE_TRUNC returns the start of the calendar period containing the timestamp',
     'For every timestamp before and after 1970, truncation to minute, hour, quarter day, day, week (Monday, Sunday or Saturday based), month, quarter, year, decade, century or millennium returns the first second of that period of the proleptic Gregorian calendar. '
     'Reducing a sub-second timestamp to a date or to a time of day rounds towards the past, also for negative timestamps, and keeps NULL.',
     ['inputs'], 'all timestamps (within 107 billion years of 2000) and NULL sentinels',
     'Tests sample a few dates; leap centuries, negative timestamps and the hand-over between the 32-bit fast path and the general path are hit only by particular dates.',
     [DT, 'omniscidb/Utils/ExtractFromTime.h'], [('datetrunc_* and DateTruncate', DT), ('floor division and modulo', 'omniscidb/Utils/ExtractFromTime.h')],
     note='The calendar is ghost state: every timestamp has exactly one decomposition into era, year, month, day and second, itself proved as a lemma.')
prop('C11', 'EXTRACT returns the calendar field of the timestamp',
     'For every timestamp before and after 1970, EXTRACT returns the proleptic Gregorian year, quarter, month, day, day of the year, day of the week (Sunday = 0, or ISO Monday = 1), week number (the week containing January 4 is week 1, for Monday, Sunday and Saturday based weeks), hour, minute, second, sub-second units or epoch of that timestamp.',
     ['inputs'], 'all timestamps (within 107 billion years of 2000)',
     'Tests sample a few dates; leap centuries, year boundaries of week numbers, negative timestamps and the hand-over from the 32-bit fast path are hit only by particular dates.',
     [XT, 'omniscidb/Utils/ExtractFromTime.h'], [('extract_* and ExtractFromTime', XT)],
     note='The calendar is ghost state: every timestamp has exactly one decomposition into era, year, month, day and second, itself proved as a lemma.')

DA = 'omniscidb/QueryEngine/DateAdd.cpp'
prop('C12', 'DATEADD and DATEDIFF follow the calendar exactly, at every precision',
     'Adding seconds to weeks moves a timestamp by exactly that interval; adding months, quarters, years, decades, centuries or millennia lands on the same day and time of the target month, or on its last day when the month is shorter. '
     'The difference of two timestamps in a unit is the number of whole units between them, truncated towards zero, where a whole calendar unit needs the day, second and sub-second part to be reached; swapping the operands negates it. NULL operands give NULL. This holds for timestamps of second to nanosecond precision, also when the two precisions differ and before 1970.',
     ['inputs'], 'all timestamps, amounts, precisions and NULL sentinels that do not overflow 64 bits',
     'Tests sample a few dates; month ends, leap centuries, negative timestamps and sub-second borrows are hit only by particular pairs of timestamps.',
     [DA, DT, 'omniscidb/Utils/ExtractFromTime.h'], [('DateAdd*', DA), ('DateDiff*', DT)],
     note='The calendar is ghost state shared with C10 and C11. Quick: every unit, with a selection of precision pairs for the calendar units; thorough: all.')

SL = 'omniscidb/Utils/StringLike.cpp'
prop('C13', 'LIKE, ILIKE and string comparison decide the mathematical relation on strings',
     'LIKE is true exactly when the string splits into pieces matching the pattern elements in turn (% any run, _ one character, [..] one of the listed characters, the escape character making the next one literal, anything else itself), and ILIKE the same ignoring ASCII case; the pattern-without-wildcards search finds exactly the substrings; <, <=, =, <>, >= and > order strings byte by byte, a proper prefix first; a NULL operand gives NULL.',
     ['inputs'], 'all strings and all well-formed patterns, of any length',
     'Tests try a few dozen pattern/string pairs; backtracking over several wildcards, classes and escapes after %, and early aborts go wrong only for particular combinations.',
     [SL, 'omniscidb/Utils/StringLike.h'], [('string_like_match, string_[i]like, string_[i]like_simple, StringCompare and the comparison operators', SL)],
     note='The recursive matcher is verified against its own contract (modular recursion): TRUE only on a match, FALSE only without one, ABORT only when no later start of the string matches either. Malformed patterns are outside the property.')

JB = 'omniscidb/QueryEngine/JoinHashTable/Runtime/HashJoinRuntime.cpp'
JI = 'omniscidb/QueryEngine/JoinHashTable/Runtime/JoinColumnIterator.h'
JP = 'omniscidb/QueryEngine/JoinHashTable/Runtime/HashJoinRuntimeCpu.cpp'
prop('C14', 'Building a join table enters each row exactly where a probe looks for it',
     'Building a join table from a chunked column visits each row of the column exactly once, whatever the chunk sizes and the number of workers. In a one-to-one table the slot of a key (after NULL and dictionary translation and bucketing) ends with the row of that key, NULL keys are left out unless IS NOT DISTINCT FROM maps them, a second row with the same key is reported (or, for a semi join, one of the rows is kept), and no other slot changes. '
     'In a one-to-many table the count of each slot is the number of its rows and the row-id list of a slot holds exactly its rows. In a keyed (composite) table a key ends in the first slot of its probe sequence that is empty or already holds it, with all its components, and is found there again; a full table is reported.',
     ['inputs', 'histories'], 'all columns, chunkings, worker counts, key ranges, NULL sentinels, translation maps, table contents and hash values; composite keys of 1 to 3 components',
     'No existing test builds these tables; uneven chunks, strides larger than a chunk, wide key components and translated NULLs go wrong only in particular shapes.',
     [JB, JI, JP, 'omniscidb/QueryEngine/JoinHashTable/Runtime/JoinHashImpl.h', 'omniscidb/QueryEngine/JoinHashTable/Runtime/HashJoinKeyHandlers.h', 'omniscidb/QueryEngine/JoinHashTable/Runtime/HashJoinRuntime.h'], [('JoinColumnIterator', JI), ('fill_hash_join_buff[_bucketized], count_matches[_bucketized], fill_row_ids[_bucketized], write_baseline_hash_slot[_for_semi_join], init_*', JB), ('fill_hash_join_buff_bucketized_cpu', JP), ('GenericKeyHandler', 'omniscidb/QueryEngine/JoinHashTable/Runtime/HashJoinKeyHandlers.h')],
     note='One worker at a time: the interleaving of workers is not explored. The construction of a whole one-to-many or keyed table (threads, vectors), the distinct-count estimate and the bucket sizes are outside the verifier: bounded executions of the real code against an oracle stand in for them.')

EN = 'omniscidb/DataMgr/'
prop('C15', 'Chunk statistics bound the chunk and record its NULLs',
     'For every chunk of a fixed-width column the recorded min and max enclose every non-NULL value, has_nulls is set exactly when a NULL was seen, and the bounds are no wider than the values (columns of a narrower encoding: than the values and the encoding\'s initial range). This holds for data already encoded and for raw data, when statistics are extended chunk by chunk, computed over sub-ranges in parallel and combined, merged across fragments, copied, or written to and read from the statistics record of the column type; fresh statistics cover nothing. The factory picks, for every column type, an encoder that interprets the stored bytes as that type.',
     ['inputs', 'histories'], 'all data, lengths, sub-range splits, earlier statistics and NULL sentinels, for every fixed-width column type and encoding',
     'Fragment skipping and range-based planning trust these bounds: one value outside makes rows silently disappear. Tests load a few small tables; a wrong bound needs a particular order of values, split, width or sign.',
     [EN + 'NoneEncoder.h', EN + 'FixedLengthEncoder.h', EN + 'DateDaysEncoder.h', EN + 'Encoder.cpp', EN + 'ChunkMetadata.h', 'omniscidb/IR/Datum.cpp'],
     [('updateStats, updateStatsEncoded, reduceStats, copyMetadata, resetChunkStats', EN + 'NoneEncoder.h'), ('same, narrow encodings', EN + 'FixedLengthEncoder.h'), ('same, days-encoded dates', EN + 'DateDaysEncoder.h'), ('Encoder::Create', EN + 'Encoder.cpp'), ('fillChunkStats, mergeStats, extract_*_stat_*', EN + 'ChunkMetadata.h')],
     note='tbb::parallel_reduce is assumed to fold over a partition of the range. Variable-length columns are not under contract.')

AO = 'omniscidb/QueryEngine/ArrayOps.cpp'
CI = 'omniscidb/Utils/ChunkIter.cpp'
prop('C16', 'Array columns: a row yields exactly its stored elements, NULL or nothing',
     'Reading a row of an array column (fixed or variable length) gives exactly the bytes stored for that row, NULL exactly for a NULL array - also when the previous row is NULL - and end-of-data exactly for rows that do not exist; reading a value or string by row number gives its stored bytes. '
     'Array size counts the elements, a subscript gives that element and NULL outside 1..size. ANY is true exactly when some element is not NULL and satisfies the comparison, ALL exactly when every element is not NULL and does, for each of the six comparisons and every element type compared in a type that holds its values. COUNT(DISTINCT) over an array column counts its distinct non-NULL elements.',
     ['inputs'], 'all chunks, rows, element values, needles and NULL sentinels; arrays of any length',
     'Tests use a few short arrays; a NULL row after a NULL row, an empty array, a subscript just past the end or a comparison at the limits of a type is decided only by particular data.',
     [AO, CI, 'omniscidb/Utils/ChunkIter.h'], [('array_size*, array_is_null, array_at_*, array_at_*_checked, array_any_*, array_all_*, array_buff, fast_fixlen_array_*, agg_count_distinct_array_*', AO), ('ChunkIter_get_nth (arrays, values, strings), ChunkIter_get_nth_varlen[_notnull]', CI)],
     note='ANY/ALL are verified against the contract of ChunkIter_get_nth. Comparisons with dictionary strings and COUNT(DISTINCT) use std::string and a hash set: bounded executions stand in.')

ER = 'omniscidb/QueryEngine/ExpressionRange.cpp'
prop('C17', 'The value range derived for an expression encloses every value it can take',
     'Whenever the engine derives a range [min, max] (with a bucket and a may-be-NULL flag) for an expression from the ranges of its parts, every value the expression can evaluate to lies in it, two different values fall in different buckets counted from min when a bucket is given, and it is NULL only if the flag says so. '
     'This holds for + - * /, unary minus, union (CASE), casts among integers, decimals, floating types, dates, times and timestamps of every unit, EXTRACT and DATE_TRUNC of every field, and after a simple qualifier narrows a column: it excludes no value that satisfies the qualifier. Where arithmetic could overflow, no range is given rather than a wrong one.',
     ['inputs'], 'all ranges of the operands and all operand values in them, all types and units',
     'Group-by and join layouts size their buffers and choose slots by these ranges, so a value outside is a write out of bounds or a merged group; the tests use small positive values, while the errors sit at overflow, negative sub-second timestamps, rounding and buckets.',
     [ER, 'omniscidb/QueryEngine/ExpressionRange.h', 'omniscidb/Shared/DateTimeUtils.h'],
     [('ExpressionRange::operator+ - * ||, div, binOp', ER), ('getExpressionRange(BinOper), getExpressionRange(UOper) casts and minus, getExpressionRange(ExtractExpr), getExpressionRange(DateTruncExpr), getDateTimePrecisionCastRange', ER), ('apply_simple_quals, apply_hpt_qual, apply_int_qual; getExpressionRange(CaseExpr)', ER)],
     note='Sub-expressions enter by the contract of getExpressionRange itself. CASE and qualifier lists use std::list and shared_ptr: bounded executions stand in. Column statistics, LIKE, string functions and date-add ranges are not covered.')

NA = []


def na(id, title, statement, over, text, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, reason=reason))


CC = 'concurrency: the guarantee quantifies over thread interleavings of code built on std::mutex, condition variables, shared_ptr lists and virtual calls; the verifier here is sequential (no ownership or rely/guarantee logic) and none of the installed verifiers accepts this C++'
na('N01', 'Buffer pool: a pinned chunk is never evicted, moved or handed out twice',
   'While a chunk of the CPU buffer pool is pinned, its memory is neither evicted nor reused for another chunk, its contents stay those last written or fetched, and the slabs account for every page exactly once, whatever other threads request, release or clear.',
   ['inputs', 'schedules'], 'all histories of getBuffer/putBuffer/deleteBuffer/clearSlabs by any number of threads and all slab sizes',
   'A lost pin or overlapping segment only shows under memory pressure with a particular interleaving.',
   ['omniscidb/DataMgr/BufferMgr/BufferMgr.cpp'], [('BufferMgr::reserveBuffer, findFreeBuffer, evict, getBuffer', 'omniscidb/DataMgr/BufferMgr/BufferMgr.cpp')], CC + '; even sequentially, the segment lists are std::list of shared state reached through virtual calls')
na('N02', 'String dictionary: one id per distinct string, also under concurrent adds',
   'For every history of additions and look-ups by any number of threads, equal strings get equal ids, different strings different ids, an id always yields the string it was given for, and bulk addition agrees with adding one by one.',
   ['inputs', 'schedules', 'histories'], 'all histories of getOrAdd, getOrAddBulk, getIdOfString and getString by any number of threads',
   'Collisions, growth during a bulk add and racing adds depend on hash values and interleavings a test does not choose.',
   ['omniscidb/StringDictionary/StringDictionary.cpp'], [('StringDictionary::getOrAdd, getOrAddBulkParallel, increaseHashTableCapacity', 'omniscidb/StringDictionary/StringDictionary.cpp')], CC + '; even sequentially the contents live in std::vector, std::string and memory-mapped payload files that the verifier does not model')
na('N03', 'Query optimisation and execution preserve the meaning of the query',
   'Every rewrite of the relational and expression trees (folding, push-down, coalescing, join reordering, CSE) and every execution strategy (hash layout, device, fragment order, retries) yields the multiset of rows the SQL semantics assign to the query on the given data.',
   ['inputs'], 'all queries and data',
   'The rewrites compose; each test fixes one query and one data set.',
   ['omniscidb/QueryOptimizer', 'omniscidb/QueryEngine/RelAlgExecutor.cpp', 'omniscidb/IR'], [('optimizer passes, RelAlgExecutor, code generation', 'omniscidb/QueryEngine/RelAlgExecutor.cpp')],
   'the specification is the semantics of SQL over heap-allocated trees of shared_ptr nodes with virtual dispatch and run-time LLVM code generation; no contract within reach of the available verifiers expresses it, and most of the files need Arrow (absent) even to compile. The runtime the generated code calls is covered by C01-C16, the ranges it relies on by C17')
na('N04', 'Result conversion and Arrow import/export are lossless',
   'Converting a query result to Arrow, importing an Arrow table, or fetching a result row by row yields exactly the values, NULLs and types of the result for every type, layout and permutation.',
   ['inputs'], 'all result layouts, types and values',
   'Wrong widths, NULL sentinels or offsets only show for particular layouts.',
   ['omniscidb/ResultSet', 'omniscidb/ArrowStorage'], [('ResultSet::getRowAt, ArrowResultSetConverter, ArrowStorage::appendArrowTable', 'omniscidb/ResultSet/ResultSetIteration.cpp')],
   'import and export are written against Arrow classes, whose headers are not installed, so they can be neither compiled nor extracted here; row iteration returns boost::variant trees over virtual storage classes that the verifier does not model')
na('N05', 'Approximate aggregates stay within their stated error',
   'APPROX_QUANTILE and APPROX_COUNT_DISTINCT return a value within the documented error of the exact answer, for any order and partition of the input.',
   ['inputs', 'histories'], 'all data, orders and merges',
   'Accuracy is a property of the distribution of inputs, not of one data set.',
   ['omniscidb/Shared/quantile.h', 'omniscidb/ResultSet/HyperLogLog.h'], [('quantile::detail::TDigest, hll_size', 'omniscidb/Shared/quantile.h')],
   'an accuracy bound over floating-point accumulations (and, for HyperLogLog, over a random hash) is statistical or numerical: floating-point arithmetic is uninterpreted in the verifier, and a deductive error bound for t-digest does not exist. The registers of HyperLogLog are covered exactly by C05')

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the entries stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
C, M = "pkg/col/", "pkg/multicol/"

prop("C01", "Blocks read back exactly as they were written",
 "For each of the eight encoding types and any block size target, every pair accepted by a block writer is found again after the file is finalized: the reader reports the same blocks in the same order and returns for each of them exactly the IDs and values written, in the order written. This holds for any uint64 IDs and int64 values (unsorted, repeated, extreme, overflowing when subtracted), any number of blocks and any block length.",
 ["inputs", "configurations", "histories"],
 "all sequences of accepted blocks of (uint64, int64) pairs x 8 encodings x block size targets",
 "Tests write a handful of small ascending blocks with encodings 0, 3, 4 and 7; overflow of deltas, every varint length boundary, large blocks, page-exact blocks and encodings 1, 2, 5, 6 are not reached.",
 [C+"writer_block_io.go", C+"writer_encoding.go", C+"encoding.go", C+"reader_block.go", C+"reader_decode.go"],
 [("encodeIDs/encodeValues per section", C+"writer_block.go"), ("encodeData delta then varint", C+"writer_encoding.go"), ("decodeBlockData", C+"reader_decode.go"), ("block layout offsets and sizes", C+"writer_block_io.go")],
 [("blockPositions/blockSizes/blockStats", "where each block went", C+"writer.go")], ["Reader.GetPairs", "Reader.BlockCount", "Reader.EncodingType"])

prop("C02", "The simple writer loses, duplicates and alters nothing",
 "After a SimpleWriter whose calls all succeeded has been closed, the file holds exactly the multiset of ID-value pairs passed to its Write calls, whatever the batch sizes, their order, the encoding and the target block size, and the IDs of every block are in ascending order. The reported total number of items then equals the number of pairs written. The caller's slices are never modified and may be reused as soon as Write returns.",
 ["inputs", "histories", "configurations"],
 "all sequences of Write batches and target size changes x encodings",
 "Tests use a few batch sequences and mostly check counts; interaction of batch boundaries, the 1000 item flush threshold, full blocks and leftovers is sampled at a few points, and order across batches is not checked at all.",
 [C+"simple_writer.go", C+"writer_block_io.go"],
 [("pending buffers and flushIfNeeded recursion on BlockFullError", C+"simple_writer.go"), ("sortByID / isSorted", C+"simple_writer.go")],
 [("pendingIDs/pendingValues", "pairs accepted but not yet in a block", C+"simple_writer.go"), ("totalItems", "pairs handed to blocks", C+"simple_writer.go")], ["SimpleWriter.TotalItems", "pairs read back"])

prop("C03", "Blocks respect the size target and splits are exact",
 "A block write that does not fit the block size target stores exactly the longest prefix of its pairs whose block fits (at least one pair), reports exactly that number, and leaves the rest unwritten, so that resubmitting the rest until it is accepted stores every pair once and in order, however large the batch; a write that fits is stored whole as one block. The size estimate for a block equals the size the block then takes in the file, padding included. No stored block of more than one pair is larger than the target.",
 ["inputs", "configurations", "histories"],
 "all pair sequences x block size targets (from 0 to megabytes) x encodings x positions in the file",
 "Tests check a few targets with uniform data; exactness of the prefix at page boundaries, for varying varint widths and for the first block (which starts after the header) is not checked.",
 [C+"writer_block_io.go", C+"constants.go"],
 [("EstimateBlockSize", C+"writer_block_io.go"), ("search for the optimal prefix and BlockFullError", C+"writer_block_io.go"), ("calculatePadding", C+"constants.go")],
 None, ["WriteBlock result", "EstimateBlockSize", "bytes of the file"])

prop("C04", "Metadata aggregates equal a full scan of the data",
 "For every finalized file, aggregation answered from the stored block statistics, aggregation that reads all values, and a direct computation over the pairs written agree on count, minimum, maximum, sum (modulo 2^64) and average, for any int64 values including the extremes and overflowing sums. An empty file aggregates to count 0, sum 0 and average 0.",
 ["inputs", "configurations"],
 "all files (any blocks, values, encodings)",
 "Tests compare the two paths on small positive values; extreme negative values, sums that wrap, many blocks and every encoding are not covered.",
 [C+"reader_aggregate.go", C+"encoding.go", C+"utils.go", C+"writer_block_io.go"],
 [("block statistics in footer entries", C+"writer_block.go"), ("sign-magnitude conversion int64ToUint64/uint64ToInt64", C+"encoding.go"), ("AggregateWithOptions", C+"reader_aggregate.go")],
 [("blockStats", "min, max, sum, count per block", C+"writer.go")], ["Reader.Aggregate", "Reader.AggregateWithOptions"])

prop("C05", "Filtered aggregation covers exactly the allowed, not denied IDs",
 "Aggregation with an allow filter, a deny filter or both gives the count, minimum, maximum, sum (modulo 2^64) and average of exactly those stored pairs whose ID is in the allow filter (if there is one) and not in the deny filter (if there is one), each stored pair counted once. This holds for any stored IDs, including repeated and unsorted ones, and any filters, including empty ones, and does not depend on whether pre-calculated statistics may be used. When nothing matches, count, sum and average are 0.",
 ["inputs", "configurations"],
 "all files x all pairs of allow and deny ID sets x option combinations",
 "Tests use dense small IDs and one or two filters; IDs spread over the 64 bit range, block edges, filters emptied by removal and mixed allow/deny sets are not covered.",
 [C+"reader_aggregate.go"],
 [("readBlockFiltered membership test", C+"reader_aggregate.go"), ("FilteredBlockIterator range test", C+"reader_aggregate.go")],
 None, ["Reader.AggregateWithOptions"])

prop("C06", "Parallel aggregation equals sequential aggregation",
 "For any number of workers (negative, one, more than blocks) and any scheduling of them, parallel aggregation returns the same count, minimum, maximum, sum and average as sequential aggregation with the same filters and options, for any number of blocks.",
 ["schedules", "inputs", "configurations"],
 "all files x options x worker counts x interleavings of the workers",
 "Tests compare a few worker counts on a few block counts under whatever schedule happens; uneven partitions, idle workers, workers whose blocks match nothing and delayed workers are not driven.",
 [C+"reader_aggregate.go"],
 [("aggregateParallel partitioning", C+"reader_aggregate.go"), ("merge of worker results", C+"reader_aggregate.go")],
 None, ["Reader.AggregateWithOptions with Parallel"])

prop("C07", "The global ID bitmap is exactly the set of stored IDs",
 "For every finalized file the global ID bitmap contains exactly the distinct IDs of its pairs, over the whole uint64 range and for any number of blocks, including files that were filled through rejected or split block writes. The answer is the same on every call, whether caching is enabled, disabled or toggled in between.",
 ["inputs", "histories", "configurations"],
 "all files x sequences of enable/disable/get calls",
 "Tests check a few small ID sets and a single toggle of the cache.",
 [C+"writer_finalize.go", C+"reader.go", C+"writer_block_io.go"],
 [("globalIDs.Set while writing", C+"writer_block_io.go"), ("writeGlobalIDBitmap", C+"writer_finalize.go"), ("GetGlobalIDBitmap and cache", C+"reader.go")],
 [("globalIDs/cacheGlobalIDs", "cached bitmap of a reader", C+"reader.go")], ["Reader.GetGlobalIDBitmap"])

prop("C08", "Multi-file aggregation counts each ID's newest file only",
 "Aggregating several files ordered from oldest to newest counts, for every ID, exactly the pairs stored in the newest file that contains the ID (all of them if it is repeated there), restricted to the filter if one is given, and none from older files. Count, minimum, maximum, sum (modulo 2^64) and average equal a direct computation of that set for any number of files, any overlap, any filter, mixed encodings, and whether or not pre-calculated statistics may be used.",
 ["inputs", "histories", "configurations"],
 "all sequences of files x filters x options",
 "Tests use two or three files with one overlap pattern; chains of updates over many files, files that match nothing, empty files and wide ID ranges are not covered.",
 [M+"aggregate.go", C+"reader_aggregate.go"],
 [("deny bitmap accumulated from newest to oldest", M+"aggregate.go"), ("mergeAggregateResults", M+"aggregate.go")],
 None, ["MultiReader.Aggregate"])

prop("C09", "Concurrent use of readers and writers is race-free and exact",
 "One open reader (and one multi-file reader) may be queried from any number of goroutines at once, sharing filters and toggling bitmap caching, while other files are being written by other writers: there is no data race, and every call returns the same answer it gives when it runs alone.",
 ["schedules", "histories"],
 "all interleavings of concurrent read-side calls on shared readers and of independent writers",
 "The tests' one concurrent workload runs aggregations only and is not run under the race detector; caching, iterators, pairs and multi-file readers are never used concurrently.",
 [C+"reader.go", C+"reader_aggregate.go", C+"reader_io.go", M+"aggregate.go"],
 [("positioned reads (ReadAt) without shared offset", C+"reader_io.go"), ("mutex around the bitmap cache", C+"reader.go"), ("per-worker accumulators", C+"reader_aggregate.go")],
 [("globalIDs/cacheGlobalIDs", "only mutable reader state", C+"reader.go")], ["race detector", "results of all read-side calls"])

prop("C10", "Written files conform to the documented format",
 "Every finalized file, parsed independently from the format specification, is well formed: fixed header, blocks that start page aligned (the first right after the header) and do not overlap, exact section offsets and sizes, sections encoded as the encoding type prescribes with minimal-length varints, block and footer statistics equal to the data, bitmap and footer located where the header and trailer say, block count and trailer consistent. The reader's accessors report the header's version, encoding and block count.",
 ["inputs", "configurations"],
 "all files that can be written",
 "Tests check offsets of one or two files; a reader and writer that drift together from the specification would not be noticed.",
 ["column_format_spec.md", C+"writer_header.go", C+"writer_block.go", C+"writer_block_io.go", C+"writer_finalize.go", C+"format.go"],
 [("header, block, footer writers", C+"writer_finalize.go"), ("page alignment padding", C+"constants.go")],
 None, ["bytes of the file", "Reader accessors"])

prop("C11", "Damaged or truncated files never crash readers or yield made-up data",
 "Opening, querying and aggregating any byte string as a file never panics, hangs or allocates memory out of proportion to the file's size. A finalized file cut short at any length or followed by other bytes (unless it then ends in a second valid footer and trailer), or whose header or trailer no longer describes it (magic, version, type, counts, sizes or locations that cannot be true), is refused when opened, and a block whose sections do not hold the recorded number of pairs is reported as an error instead of being returned with missing, repeated or invented pairs.",
 ["inputs", "fault_sequences"],
 "all truncations, and byte, field and region damage of valid files (payload bytes that decode to other valid pairs are indistinguishable without checksums and excluded)",
 "Tests open one file with a wrong magic; the space of damaged files is not explored, and some tests relied on made-up filler data.",
 [C+"reader_header.go", C+"reader_io.go", C+"reader_block.go", C+"reader_decode.go", C+"reader.go"],
 [("validation in readHeader/readFooter", C+"reader_header.go"), ("bounds checks in readBytesAt/readBlock", C+"reader_io.go"), ("exact section decoding", C+"reader_decode.go")],
 None, ["NewReader", "Reader.GetPairs", "Reader.GetGlobalIDBitmap", "memory allocated"])

prop("C12", "A crash while writing never leaves a readable but incomplete file",
 "If the process dies or power is lost at any point while a file is being written or finalized, the file left behind is either refused when opened or holds everything that was written: all pairs, the exact statistics and the exact ID bitmap. After a process death all completed writes and possibly a part of the last one are there; after a power loss any subset of what was written since the last completed sync may be.",
 ["crash_points", "histories", "inputs"],
 "all write histories x all crash points x subsets of unsynced sectors",
 "Tests never interrupt a writer.",
 [C+"writer_finalize.go", C+"writer_header.go", C+"reader_header.go"],
 [("magic trailer written last, after a sync", C+"writer_finalize.go"), ("header count and footer size checked on open", C+"reader_header.go")],
 None, ["recorded write/sync/truncate sequence", "NewReader on reconstructed images"], None)

prop("C13", "A successfully finalized file is durable",
 "When finalizing or closing a writer returns success, every byte of the file has been written and synced: a power loss at any later moment leaves a file that opens and holds every pair, statistic and ID that was written.",
 ["crash_points", "histories", "configurations"],
 "all write histories that end in an acknowledged finalize or close",
 "Tests cannot lose power; a missing or misplaced sync is invisible to them.",
 [C+"writer_finalize.go", C+"simple_writer.go"],
 [("final sync in Finalize", C+"writer_finalize.go"), ("SimpleWriter.Close finalizes before reporting success", C+"simple_writer.go")],
 None, ["recorded write and sync calls", "images that keep only synced bytes"])

prop("C14", "I/O failures are reported, never papered over",
 "If any write, sync, seek or close of a writer fails or is cut short, some call of that writer returns an error; a writer whose calls all succeeded has produced exactly the intended file, and a failed block write or close that is repeated until it succeeds loses, repeats and alters nothing. If any read fails, opening, reading pairs or reading the ID bitmap returns an error or the exact data, never wrong data, and reads that return fewer bytes than asked are completed.",
 ["fault_sequences", "histories"],
 "all write and read histories x all positions and kinds of I/O failure",
 "Tests never make an I/O call fail.",
 [C+"writer_block_io.go", C+"writer_finalize.go", C+"writer_header.go", C+"simple_writer.go", C+"reader_io.go"],
 [("error propagation from every file call", C+"writer_block_io.go"), ("sticky writer error", C+"writer.go"), ("complete reads", C+"reader_io.go")],
 [("err", "first failure of a writer", C+"writer.go")], ["results of API calls under injected faults"])

prop("C15", "Invalid calls are refused without side effects",
 "Block writes with mismatched lengths, no pairs or an encoding type that does not exist, batches with mismatched lengths, writes to finalized or closed writers and reads of blocks that do not exist return an error and change nothing: the file and every later answer are the same as if the call had not been made. Empty batches, repeated closes of a simple writer and size estimates likewise leave the file as it would have been.",
 ["histories", "inputs"],
 "all histories of valid calls with invalid or neutral calls inserted anywhere",
 "Tests check that an error is returned in some cases, not that state is unaffected afterwards.",
 [C+"writer_block_io.go", C+"simple_writer.go", C+"reader_block.go"],
 [("argument validation before any write", C+"writer_block_io.go"), ("closed flag", C+"simple_writer.go"), ("block index validation", C+"reader_block.go")],
 None, ["results of calls", "bytes of the file"])

prop("C16", "Queries change nothing and are repeatable",
 "Reading, aggregating, iterating and multi-file aggregation never modify the files, the filters passed in, the inputs to writes or results handed out earlier; each call returns the same answer whatever calls came before it on the same reader, also with filters that have changed in between, slices returned to one caller are independent of those returned to another, also when the caller appends to them, and so are ID bitmaps handed out while bitmap caching is off. An open reader keeps answering from the file it opened when that file is moved or removed and another takes its name.",
 ["histories", "inputs"],
 "all sequences of read-side calls, with the caller modifying what it was given",
 "Tests call each query once on a fresh reader.",
 [C+"reader.go", C+"reader_aggregate.go", C+"reader_block.go", M+"aggregate.go"],
 [("fresh slices per read", C+"reader_decode.go"), ("deny bitmap built privately", M+"aggregate.go"), ("delta encoding into copies", C+"encoding.go")],
 None, ["results of repeated calls", "bytes of the files", "contents of filters"])

prop("C17", "The command line tools store and report exactly the given data",
 "vibecol write followed by vibecol read with dump and aggregation prints exactly the given pairs and their true count, minimum, maximum, sum and average, for any number of pairs; arguments that are refused leave an existing file as it was. loadtest import creates a readable file with exactly the requested number of values, and loadtest aggregate reports for any file the true aggregates and count with any parallel and cache setting. Both commands fail with a non-zero status, without crashing, on invalid arguments, unreadable or damaged input files and output files that cannot be written.",
 ["inputs", "configurations"],
 "all ID/value lists and option combinations of vibecol and loadtest",
 "The commands have no tests.",
 ["cmd/vibecol/main.go", "cmd/loadtest/main.go"],
 [("runWrite/runRead", "cmd/vibecol/main.go"), ("runImport/runAggregations", "cmd/loadtest/main.go")],
 None, ["exit status and output of the commands", "files they write"])

prop("C18", "Files and goroutines are released",
 "Opening that fails, closing a reader or multi-file reader, and successfully closing a writer release every file they opened, also when closing one of several files fails; queries hold no file open beyond the reader's own and leave no goroutine behind, whatever the number of workers and whether or not reads fail.",
 ["histories", "fault_sequences"],
 "all sequences of open, failed open, query and close calls",
 "Tests do not count descriptors or goroutines.",
 [C+"reader.go", C+"writer.go", C+"writer_finalize.go", C+"reader_aggregate.go", M+"aggregate.go"],
 [("close on every failure path of NewReader/NewWriter", C+"reader.go"), ("MultiReader.Close closes all", M+"aggregate.go"), ("WaitGroup in parallel aggregation", C+"reader_aggregate.go")],
 None, ["open and close events", "goroutine count"])

prop("C19", "Block skipping never skips a match and never keeps a clear miss",
 "The block iterator returns, in ascending order and without repetition, every block that holds an ID allowed by the filter and not denied, and with an allow filter none whose ID range lies entirely below the filter's smallest or above its largest ID. Without an allow filter it returns every block.",
 ["inputs", "configurations"],
 "all files x all filters",
 "Tests check one filter over a few consecutive blocks; edges of ranges, unsorted blocks and wide IDs are not covered.",
 [C+"reader_aggregate.go"],
 [("FilteredBlockIterator range comparison", C+"reader_aggregate.go"), ("min/max ID statistics", C+"utils.go")],
 None, ["Reader.FilteredBlockIterator"])

prop("C20", "Aggregation reads no more of the file than it needs",
 "Aggregation that may use pre-calculated statistics and has no filter reads no block data at all, sequentially or in parallel. Aggregation with an allow filter reads data only of blocks whose ID range overlaps the range of the filter, also over several files, and reading one block's pairs reads data of that block only. Opening a file, listing the blocks that may match, the diagnostics and getting the ID bitmap read no block data, and while caching of the bitmap is enabled, later requests for it read nothing.",
 ["inputs", "configurations"],
 "all files x options",
 "Tests look at results, never at what is read; losing the optimisation would not change any result.",
 [C+"reader_aggregate.go", C+"reader_block.go"],
 [("footer statistics shortcut", C+"reader_aggregate.go"), ("FilteredBlockIterator before reading", C+"reader_aggregate.go")],
 None, ["offsets and lengths of file reads"])

prop("C21", "Readers accept every file the format allows",
 "Any file laid out as the format specification allows, also one not produced by this writer, opens and yields exactly its pairs, aggregates and ID set: for each encoding, sections in either order or with gaps, blocks stored in any order, nonzero reserved and unused fields, and files without an ID bitmap such as those of earlier versions, whose bitmap is then empty.",
 ["inputs", "configurations"],
 "all files an independent encoder can build from the specification",
 "Tests read only files the same code has just written.",
 ["column_format_spec.md", C+"reader_header.go", C+"reader_block.go", C+"reader_decode.go"],
 [("section offsets honoured", C+"reader_block.go"), ("optional bitmap", C+"reader.go")],
 None, ["Reader on independently encoded files"])

prop("C22", "Files are determined by what is written",
 "The same calls on a writer, or the same command with the same arguments (and seed), produce the same bytes apart from the creation time, which lies between the start and the end of the writing: whatever the directory, a file that was there before, the capacity and later use of the slices passed in, the order of the options, the scheduling, and any other writers at work in the same process.",
 ["inputs", "histories", "schedules"],
 "all writer histories x circumstances of the run",
 "Tests never write the same data twice; leaks of state between writers or from older files, and dependence on map order, time or memory layout, need a second run under other circumstances to show.",
 [C+"writer.go", C+"writer_header.go", C+"writer_block_io.go", C+"writer_finalize.go", C+"simple_writer.go", "cmd/loadtest/main.go"],
 [("writer state", C+"writer.go"), ("header with creation time", C+"format.go"), ("seeded generator", "cmd/loadtest/main.go")],
 None, ["bytes of the files"])

prop("C23", "Diagnostics describe the file truly",
 "For every file that opens, DebugInfo lists the header's version, block count and encoding type, the footer's size, the number of index entries, and for every block in order its true offset, size, number of pairs, smallest and largest ID, minimum, maximum and sum, also for negative and extreme values; the report and the accessors are the same before and after queries and after closing.",
 ["inputs", "histories"],
 "all files that open, written by this library or not",
 "Tests only print the report.",
 [C+"reader.go", C+"reader_header.go", C+"encoding.go"],
 [("DebugInfo", C+"reader.go"), ("uint64ToInt64", C+"encoding.go")],
 None, ["Reader.DebugInfo", "Reader.Version", "Reader.BlockCount"])

prop("C24", "Memory and work follow the blocks in flight, not the file",
 "Scanning, filtering and aggregating a file, sequentially, in parallel or with other files, needs memory for the blocks being read (one per worker), the block index and the ID bitmaps, not for the file's data, and leaves none of the data in memory afterwards; it reads the file at most about once. Disabling the caching of the ID bitmap gives its memory back. Writing needs memory for the data not yet in a block, the block index and the ID bitmap, writes every byte about once, and cuts batches into blocks with work proportional to their size. The report of DebugInfo takes memory and work in proportion to its length.",
 ["inputs", "histories", "configurations"],
 "all files much larger than their blocks x queries x workers",
 "Tests use tiny files and never look at memory or at the amount of input and output; keeping all blocks, or reading the file again for every block, changes no result.",
 [C+"reader_aggregate.go", C+"reader_block.go", C+"simple_writer.go", C+"writer_block_io.go", M+"aggregate.go"],
 [("one block at a time per worker", C+"reader_aggregate.go"), ("pending pairs given up when written", C+"simple_writer.go"), ("split search", C+"writer_block_io.go")],
 None, ["live heap at intercepted reads and writes", "bytes read and written"])

prop("C25", "The example programs show what they claim",
 "write_example followed by read_example prints exactly the ten pairs, their statistics and aggregates; read_example prints the pairs and the aggregates of the block index of any file of that layout, with any ten pairs and any index entries, and fails with a non-zero status on a file that is cut short or does not begin and end with the magic number. The filtered aggregation example prints the true result for each of its five filters and leaves no file behind.",
 ["inputs"],
 "all files of the example layout",
 "The programs have no tests.",
 ["cmd/write_example/main.go", "cmd/read_example/main.go", "examples/filtered_aggregation_example.go"],
 [("DumpKVPairs/AggregateFromMetadataOnly", "cmd/read_example/main.go"), ("writeFile", "cmd/write_example/main.go")],
 None, ["exit status and output of the programs"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))

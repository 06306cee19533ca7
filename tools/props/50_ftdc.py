P("P22", "FTDC recordings read back as the values that were recorded",
  "Samples recorded by an FTDC collector read back with every metric's value, type and path intact, whatever the values and however they change from one sample to the next: 32- and 64-bit integers, doubles (bit for bit), booleans, dates and timestamps, at any place in nested documents and arrays. The structured reader restores the samples' structure without the fields that are no metrics, the flat reader yields the full dotted paths (a timestamp as its seconds and an .inc field), the matrix reader one array per metric, the chunk reader the numeric series; all with as many samples as were recorded, in order.",
  ["inputs"], "Every value of every metric, every change between samples.",
  "Tests compare counts and a few random documents.",
  ["x/ftdc/bson_metric.go", "x/ftdc/collector_better.go", "x/ftdc/iterator_matrix.go", "x/ftdc/bson_extract.go", "x/ftdc/bson_restore.go", "x/ftdc/read.go", "x/ftdc/util.go"],
  [("recording", "x/ftdc/collector_better.go Resolve, x/ftdc/bson_extract.go"), ("decoding", "x/ftdc/read.go"), ("restoring", "x/ftdc/bson_restore.go, x/ftdc/iterator_*.go")],
  "./ftdc",
  "a field of each of 11 shapes (each metric type, non-metrics, a document, an array, documents three deep), alone or after a boolean, with all values of its width, over 2 samples (thorough: also 3 for single metrics), through four readers; 130 samples of a metric, 5 of 140 (thorough: 300 of 3, 140 of 130, 1100 of 2) with a change anywhere. Compression is modelled as an invertible transformation.",
  "the DEFLATE compression itself, the series reader, more samples of wide values at a time.",
  [H("Values", 150, {"N": 2}), H("Large", 100, {"NS": 2, "MSTEPS": 200})],
  [H("Values", 200, {"N": 2})] + [H("Values", 150, {"N": 3, "KIND": k}) for k in (0, 2)] + [H("Large", 400, {"NS": 5, "MSTEPS": 200})])

P("P23", "Every FTDC collector records every sample once, in order, with its metadata",
  "Whatever the kind of collector, its limit and the number of samples, what it writes (streaming ones as they go, the others when flushed) reads back as exactly the samples that were added, in order. Collectors for changing schemas start a new chunk whenever the names, nesting, types or order of the fields change, and never mix samples of different schemas; the others refuse a sample that does not fit and one too many, and keep what they have. Metadata precedes the samples and is attached to every chunk as read; a nil removes it. Info reports the samples and metrics held, and after a flush or reset the collector is empty and usable.",
  ["inputs", "histories"], "Every collector, limit, history of additions and schema change.",
  "Tests add samples of fixed schemas and compare counts.",
  ["x/ftdc/collector_batch.go", "x/ftdc/collector_dynamic.go", "x/ftdc/collector_streaming.go", "x/ftdc/bson_hash.go", "x/ftdc/collector_better.go", "x/ftdc/collector.go"],
  [("limits", "x/ftdc/collector_better.go Add, x/ftdc/collector_batch.go"), ("schemas", "x/ftdc/bson_hash.go, x/ftdc/collector_dynamic.go"), ("streaming", "x/ftdc/collector_streaming*.go")],
  "./ftdc",
  "eight collectors, limits 1-3, up to 3 (thorough: 4) samples each of either of two schemas from 12 pairs that are easily confused, two readers, with and without metadata; four collectors with 130 samples and limits of 128 and more; samples too many or of other schemas.",
  "limits of zero.",
  [H("Collect", 150, {"N": 3}), H("Large", 100, {"NS": 2, "MSTEPS": 200}), H("Refuse", 60, {"N": 3}, ("done", "overfull", "type-change"))],
  [H("Collect", 600, {"N": 4}), H("Refuse", 100, {"N": 4}, ("done", "overfull", "type-change"))])

P("P24", "Damaged FTDC data is an error after the samples before it",
  "Reading FTDC data never panics or hangs, whatever the bytes: bad sizes, counts, deltas, missing fields, wrong types and cut-off data are errors. All complete chunks before the damage are delivered first, and the error is reported when iteration ends, on every interleaving of the reader's goroutines; nothing of a damaged chunk is delivered. Data that ends between documents is complete, also when it is empty. A consumer that stops early gets no error, and no goroutine stays behind or races with it.",
  ["inputs", "faults", "schedules"], "Every damage, cut and interleaving.",
  "Tests read well-formed files.",
  ["x/ftdc/read.go", "x/ftdc/iterator_chunk.go", "x/ftdc/iterator.go", "x/ftdc/util.go"],
  [("decoding", "x/ftdc/read.go"), ("iteration", "x/ftdc/iterator*.go")],
  "./ftdc",
  "chunks over 4 reference documents with any metric count below 256, up to 3 deltas and 3 bytes of deltas; any 2 (thorough: 3) consecutive bytes replaced, or a cut, anywhere in the payload or the documents that carry it (the high bytes of sizes excepted); all interleavings with 1 (thorough: 2) preemptions.",
  "memory used for huge declared sizes; damage inside compressed data.",
  [H("Payload", 60, {"N": 3}, ("error", "read")), H("Damaged", 60, {"W": 2}, ("error", "read")), H("Stream", 60, {"W": 2}, ("cut", "error", "read")), H("ReadEnds", 60), H("StopEarly", 60)],
  [H("Payload", 200, {"N": 5}, ("error", "read")), H("Damaged", 200, {"W": 3}, ("error", "read")), H("Stream", 200, {"W": 3}, ("cut", "error", "read")), H("ReadEnds", 200, {"PREEMPT": 2}), H("StopEarly", 200, {"PREEMPT": 2})])

P("P25", "Wrapped FTDC collectors lose nothing under concurrency and cancellation",
  "A synchronized collector used by several goroutines takes every addition exactly once, free of data races, each goroutine's in its order. A buffered collector records every sample whose addition it accepted, in order, also when its context ends at any moment; a sample that is not accepted is refused with the context's error, and none blocks, panics or is lost; an error of the underlying collector is reported when resolving. A sampling collector keeps the first sample of every interval.",
  ["schedules", "histories"], "Every interleaving of users, buffering goroutine and cancellation.",
  "Tests run one schedule and do not cancel.",
  ["x/ftdc/collector_buffered.go", "x/ftdc/collector_sync.go", "x/ftdc/collector_sample.go"],
  [("locking", "x/ftdc/collector_sync.go"), ("buffering", "x/ftdc/collector_buffered.go"), ("sampling", "x/ftdc/collector_sample.go")],
  "./ftdc",
  "two goroutines with three additions and one of five other operations; buffers of 0-2, three additions, cancellation before, during or never; all interleavings with 1 (thorough: 2) preemptions; intervals of zero and longer than the run.",
  "intervals that pass during the run.",
  [H("Synchronized", 60, {"PREEMPT": 2}), H("Buffered", 100, {"PREEMPT": 1}, ("done", "canceled")), H("BufferedErrors", 60), H("Sampling", 60)],
  [H("Synchronized", 200, {"PREEMPT": 4}), H("Buffered", 400, {"PREEMPT": 2}, ("done", "canceled")), H("BufferedErrors", 100, {"PREEMPT": 3}), H("Sampling", 60)])

P("P26", "FTDC exports hold every sample and report every failure",
  "Uncompressed collectors write metadata and documents themselves, once each and in order, as BSON or as JSON lines. Documents written as bytes to a writer collector, also from a reused buffer, are all recorded, and malformed ones are refused. The CSV form has a header with the metrics' paths and a row per sample with every value exact, quoted as CSV requires, and converts back into the same numbers. Failures to write, close or parse are reported.",
  ["inputs", "faults"], "Every sample and fault.",
  "Tests count lines.",
  ["x/ftdc/collector_uncompressed.go", "x/ftdc/csv.go", "x/ftdc/writer.go"],
  [("uncompressed", "x/ftdc/collector_uncompressed.go"), ("writer", "x/ftdc/writer.go"), ("csv", "x/ftdc/csv.go")],
  "./ftdc",
  "six uncompressed collectors, limits 1-3, 3 (thorough: 4) documents of two schemas; up to 3 writes, malformed or not, with faults; tables of 2 rows and 4 columns, every 8-bit (thorough: 16-bit) number and extremes.",
  "dates in CSV (written without fractions of a second, by design).",
  [H("Uncompressed", 60, {"N": 3}, ("done", "overfull")), H("Writer", 60, {"N": 3}), H("CSV", 60), H("CSVFaults", 30, None, ("done", "error")), H("CSVNumbers", 60, {"BITS": 8})],
  [H("Uncompressed", 100, {"N": 4}, ("done", "overfull")), H("Writer", 100, {"N": 4}), H("CSV", 60), H("CSVFaults", 30, None, ("done", "error")), H("CSVNumbers", 200, {"BITS": 16})])

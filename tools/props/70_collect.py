P("P30", "Linked documents are the documents of their elements in order",
  "A linked document (x/blist) behaves as the list of its elements: whatever the sequence of appending, prepending, setting and deleting, its length, its order in both directions and the size Validate reports are those of a document with these elements; Set replaces the first element of that key or adds one, Delete removes and returns the first, elements that are empty are left out only where asked, and nil elements are refused.",
  ["inputs", "histories"], "Every sequence of operations, every value.",
  "There are no tests.",
  ["x/blist/blist.go"],
  [("operations", "x/blist/blist.go")],
  "./lists",
  "up to 2 (thorough: 3) operations on three keys and four types of values; strings of one byte.",
  "prepending several elements at once, whose order is not specified.",
  [H("Lists", 60, {"N": 2})],
  [H("Lists", 300, {"N": 3})])

P("P31", "Metrics collection records every sample and reports how it ended",
  "Collecting from a JSON stream or file writes FTDC files that together hold every document of the input, in order, whatever their number, schemas, the chunk size and the moments of flushes; if the input ends badly (malformed document, reader's failure) everything before is kept and the error is returned; if canceled, a prefix is kept. Runtime collection writes every sample that its collectors were asked for, once, in order over all files, each with the results of all collectors, run serially or in parallel, and with consecutive ids, also when it is canceled at any moment or a collector fails, which is reported. No file stays open. Options that make no sense are refused before anything is read or written. The documents of the system's, process's and Go runtime's metrics hold each of them with its value, and counters of the Go runtime grow by the deltas reported in between, however many users there are.",
  ["inputs", "histories", "schedules", "faults"], "Every input, end, moment of flush and cancellation, and interleaving.",
  "Tests sleep for a while and count samples.",
  ["x/ftdc/metrics/json.go", "x/ftdc/metrics/metrics.go", "x/ftdc/metrics/golang_info.go", "x/ftdc/metrics/system_info.go", "x/ftdc/metrics/process_info.go", "x/ftdc/metrics/runtime.go", "x/ftdc/metrics/birch_builders.go", "x/ftdc/metrics/platform_linux.go"],
  [("json", "x/ftdc/metrics/json.go CollectJSONStream, getSource"), ("runtime", "x/ftdc/metrics/metrics.go CollectRuntime, generate"), ("documents", "x/ftdc/metrics/*_info.go MarshalDocument")],
  "./metrics",
  "up to 2 (thorough: 3) documents of two schemas from four sources, four ends, one (thorough: two) flushes at any point; two collectors, serial or parallel, canceled or failing at one of the first 2 (thorough: 3) samples; interleavings with 0-1 (thorough: 2) preemptions; timers fire in an order their durations allow; one more sample after a cancellation. Files are those of a model of the file system without faults other than missing directories.",
  "what the operating system's metrics are (gopsutil); following a file that grows (fsnotify).",
  [H("JSON", 60, {"N": 2, "PREEMPT": 0, "TICKS": 1}, ("done", "refused", "canceled")), H("JSON", 100, {"N": 1, "PREEMPT": 1, "TICKS": 1}, ("done", "refused", "canceled")),
   H("Refused", 30), H("Collect", 60, {"N": 1, "PREEMPT": 0, "TICKS": 1, "MORE": 14}, ("done","refused")), H("Collect", 60, {"N": 2, "PREEMPT": 0, "TICKS": 1}, ("done", "refused", "failed")), H("Collect", 60, {"N": 1, "PREEMPT": 1, "TICKS": 1}, ("done", "refused", "failed")),
   H("System", 30), H("Process", 30), H("Runtime", 30), H("GoStats", 30, {"PREEMPT": 2})],
  [H("JSON", 150, {"N": 3, "PREEMPT": 0, "TICKS": 1}, ("done", "refused", "canceled")), H("JSON", 150, {"N": 1, "PREEMPT": 1, "TICKS": 1}, ("done", "refused", "canceled")),
   H("Refused", 30), H("Collect", 60, {"N": 1, "PREEMPT": 0, "TICKS": 1, "MORE": 14}, ("done","refused")), H("Collect", 200, {"N": 3, "PREEMPT": 0, "TICKS": 2}, ("done", "refused", "failed")), H("Collect", 200, {"N": 2, "PREEMPT": 1, "TICKS": 1}, ("done", "refused", "failed")),
   H("System", 30), H("Process", 30), H("Runtime", 30), H("GoStats", 60, {"PREEMPT": 4})])

N("N01", "Operating system metrics are what the system reports",
  "The system and process metrics that are collected are those of the operating system at that time.",
  ["inputs"], "Every state of the system.", "Values differ from moment to moment.",
  ["x/ftdc/metrics/system_info.go", "x/ftdc/metrics/process_info.go"], [("collection", "x/ftdc/metrics CollectSystemInfo, CollectProcessInfo")],
  "The values come from the kernel through gopsutil, which reads /proc and makes system calls: what the kernel answers cannot be encoded within reach. The documents made of these values are decided by P31.")

N("N02", "Following a file collects every line appended to it",
  "With the Follow option every JSON document appended to the file is collected once, in order.",
  ["schedules"], "Every timing of writes and notifications.", "There is one test with fixed timing.",
  ["x/ftdc/metrics/json.go"], [("follow", "x/ftdc/metrics/json.go follow")],
  "It depends on inotify through fsnotify (system calls and a poller), whose semantics cannot be encoded within reach.")

N("N03", "Compressed FTDC data is compressed and restored without loss",
  "The DEFLATE stream in an FTDC chunk restores to the bytes it was made of.",
  ["inputs"], "Every payload.", "Tests compress a few payloads.",
  ["x/ftdc/util.go"], [("compression", "x/ftdc/util.go compressBuffer, x/ftdc/read.go")],
  "The code is compress/zlib of the Go distribution; its hash chains and Huffman coding over symbolic bytes are out of reach of the solver. The engine models it as an invertible transformation that detects damage; P22 to P26 use that model.")

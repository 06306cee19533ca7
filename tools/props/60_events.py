P("P27", "Performance events and custom points survive recording",
  "A performance event marshals to a document with all of its fields and is restored from that document, and from FTDC, with every field as it was; documents with fields of other types are refused. Collectors of events record every event given to them (or, for the sampling, random and interval collectors, those due) once and in order: the passthrough collector as given, the others as the sum of the events so far with the latest timestamp, id and gauges. None of them changes or keeps the caller's event, and nil is refused. A synchronized collector of events loses none of several goroutines'. Custom points of every supported type are a document in order of their names, all of them in it, which can be recorded; other types are refused.",
  ["inputs", "histories", "schedules"], "Every value of every field, every series of events and interleaving.",
  "Tests add a few fixed events and check counts.",
  ["x/ftdc/events/performance.go", "x/ftdc/events/collector.go", "x/ftdc/events/custom.go"],
  [("documents", "x/ftdc/events/performance.go MarshalDocument, UnmarshalDocument"), ("accumulation", "x/ftdc/events/performance.go Add, x/ftdc/events/collector*.go"), ("points", "x/ftdc/events/custom.go")],
  "./events",
  "all values of all fields, one symbolic counter, timer or gauge at a time in series; series of up to 3 (thorough: 5) events, each new or the same one again, with seven collectors; up to 2 (thorough: 3) points of 14 types; two goroutines, all interleavings with 2 (thorough: 4) preemptions.",
  "percentages of random sampling strictly between 0 and 100.",
  [H("Document", 30), H("Wrong", 30, None, ("restored", "refused")), H("Events", 60, {"N": 3}), H("Recorded", 30), H("Shared", 60, {"PREEMPT": 2}), H("Points", 60, {"N": 2}, ("done", "refused"))],
  [H("Document", 30), H("Wrong", 30, None, ("restored", "refused")), H("Events", 200, {"N": 5}), H("Recorded", 30), H("Shared", 150, {"PREEMPT": 4}), H("Points", 400, {"N": 3}, ("done", "refused"))])

P("P28", "Event recorders account for every operation exactly once",
  "Whatever the recorder and the order in which iterations begin, count operations, sizes and errors, set gauges and end, the persisted events together account for every operation, error, iteration and duration exactly once: the raw recorder persists an event per iteration with the totals so far and the time of that iteration, the single recorder one at the end of the test, the grouped ones at their interval, the interval ones at their ticks; EndTest persists what is left, stops the recorder's goroutine, reports failures of the collector (once), and leaves the recorder ready for the next test, with its gauges. This holds on every interleaving of ticks, operations of several goroutines, cancellation and the end of the test, with no data race and no deadlock. Reset persists nothing.",
  ["inputs", "histories", "schedules", "faults"], "Every order of operations, tick, cancellation and failure.",
  "Tests run one schedule, and wait for ticks.",
  ["x/ftdc/events/recorder.go", "x/ftdc/events/recorder_performance_raw.go", "x/ftdc/events/recorder_performance_single.go", "x/ftdc/events/recorder_performance_grouped.go", "x/ftdc/events/recorder_performance_interval.go", "x/ftdc/events/recorder_wrapper_sync.go", "x/ftdc/events/recorder_wrapper_stdlib.go"],
  [("accounting", "x/ftdc/events/recorder_*.go"), ("interval", "x/ftdc/events/recorder_performance_interval.go"), ("errors", "x/ftdc/events/recorder_*.go EndTest")],
  "./events",
  "five recorders without and one with ticks, up to 2 (thorough: 3) iterations, one of any operation with any 32-bit value each, then a second test; up to 2 ticks at any point with 1 preemption, one or two goroutines and cancellation; failures of every addition.",
  "more than one preemption with ticks; operations recorded after a tick and outside an iteration.",
  [H("Recorders", 150, {"N": 2}), H("RecorderErrors", 30), H("Intervals", 100, {"PREEMPT": 1, "TICKS": 2}), H("SharedRecorder", 60)],
  [H("Recorders", 600, {"N": 2}), H("RecorderErrors", 30), H("Intervals", 200, {"PREEMPT": 1, "TICKS": 3}), H("SharedRecorder", 60, {"PREEMPT": 3})])

P("P29", "Histogram recorders count every value of every iteration once",
  "The histogram recorders put the counters and timers of every iteration into their histograms exactly once, persist them at the end of the test (the grouped ones at their interval, the interval ones at their ticks, on every interleaving), and start over with empty histograms. A histogram's document holds its range, precision and all its counts.",
  ["inputs", "histories", "schedules"], "Every value, every order of operations and tick.",
  "Tests record a single fixed value.",
  ["x/ftdc/events/recorder_histogram.go", "x/ftdc/events/recorder_histogram_single.go", "x/ftdc/events/recorder_histogram_grouped.go", "x/ftdc/events/recorder_histogram_interval.go", "x/ftdc/events/histogram.go", "x/ftdc/hdrhist/snapshot.go"],
  [("recording", "x/ftdc/events/recorder_histogram*.go"), ("documents", "x/ftdc/hdrhist")],
  "./events",
  "five recorders, 2 iterations with operations of any value in range, errors and durations; up to 1 (thorough: 2) ticks at any point with 1 preemption; histograms of two values up to 100.",
  "the choice of buckets inside the histogram library, which is not part of the repository.",
  [H("Histograms", 60), H("Snapshot", 100), H("IntervalHistograms", 60, {"PREEMPT": 1, "TICKS": 1})],
  [H("Histograms", 60), H("Snapshot", 100), H("IntervalHistograms", 200, {"PREEMPT": 1, "TICKS": 2})])

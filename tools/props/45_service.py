P("P32", "Network services answer every request and end with their context",
  "A service that listens on the network passes every request of every connection to the handler of its scope exactly once, and what the handlers write reaches that connection, also when later requests on it are malformed or have no handler, when a handler panics, or when the client sends nothing more; each such failure is reported to the error handlers once, and neither ends the service nor disturbs other connections. Run returns when its context ends, whether or not there are connections, these are closed, and the address is free again; an address in use is refused. No interleaving of clients, handlers and the end races or deadlocks.",
  ["inputs", "schedules", "faults"], "Every sequence of good and bad requests on several connections, every interleaving.",
  "There are no tests of the service.",
  ["x/mrpc/service.go"],
  [("accepting", "x/mrpc/service.go Run"), ("dispatching", "x/mrpc/service.go dispatchRequest")],
  "./wire",
  "1-2 clients, up to 2 (thorough: 3) requests of 4 kinds, clients that leave, stay or send nothing more; interleavings with 1-2 (thorough: 2-3) departures from a round robin. The network is a model of loopback streams (native replays use the real one).",
  "TLS; failures of accept other than the listener's end.",
  [H("Service", 100, {"CLIENTS": 2, "N": 2, "DELAYS": 1}, ("done", "taken")), H("Service", 60, {"CLIENTS": 1, "N": 1, "DELAYS": 2}, ("done", "taken")), H("Service", 60, {"END": 1, "CLIENTS": 1, "N": 1, "DELAYS": 2}, ("done", "idle"))],
  [H("Service", 200, {"CLIENTS": 2, "N": 3, "DELAYS": 1}, ("done", "taken")), H("Service", 300, {"CLIENTS": 2, "N": 2, "DELAYS": 2}, ("done", "taken")), H("Service", 200, {"END": 1, "CLIENTS": 1, "N": 1, "DELAYS": 3}, ("done", "idle"))])

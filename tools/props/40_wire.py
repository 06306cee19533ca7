P("P17", "Any bytes after a wire header are a message or an error",
  "Parsing the body of a wire protocol message of any kind never panics, hangs or reads outside the body, whatever the bytes: wrong lengths, counts, section sizes, missing terminators, empty command documents and cut-off bodies are errors. A body that is accepted yields a message on which every operation a service performs (scope, model, request or response document, handler lookup, serialization) is safe, and whose serialization carries its true length. An unknown operation code is an error.",
  ["inputs"], "Every body of every operation code.",
  "Tests parse only messages the library serialized itself.",
  ["x/mrpc/mongowire/wire_message.go", "x/mrpc/mongowire/wire_query.go", "x/mrpc/mongowire/wire_kill_cursors.go", "x/mrpc/mongowire/wire_command.go", "x/mrpc/mongowire/header.go"],
  [("dispatch", "x/mrpc/mongowire/header.go Parse"), ("bodies", "x/mrpc/mongowire/wire_*.go parse*"), ("use", "x/mrpc/registry.go Get, x/mrpc/shell/util.go")],
  "./wire",
  "all bodies to 13 bytes for each of the 11 operation codes; well-formed bodies of every kind (to 60 bytes) cut at every point or with 3 (thorough: 4) consecutive bytes replaced by arbitrary ones at every position.",
  "longer bodies with several independent defects.",
  [H("ParseAny", 100, {"N": 13}, ("parsed",)), H("ParseNear", 150, {"W": 3}, ("parsed",))],
  [H("ParseAny", 400, {"N": 16}, ("parsed",)), H("ParseNear", 300, {"W": 4}, ("parsed",))])

P("P18", "Wire messages survive the wire",
  "Every message the constructors build serializes to exactly the bytes the MongoDB wire protocol prescribes (header with total length, request id and operation code; fields little-endian in order; OP_MSG sections with kind, length and identifier; the checksum exactly when flagged), repeatedly the same. Parsing those bytes yields a message with the same fields, flags, namespace, cursor ids and documents in the same order, the same model and scope, and the same serialization; request and response ids of the header are kept. A query on a command namespace becomes a command with the database, command name and arguments of the query.",
  ["inputs"], "Every value of every field, every flag combination, any small documents.",
  "Tests serialize one instance of each message with all-zero flags and two fixed documents.",
  ["x/mrpc/mongowire/message.go", "x/mrpc/mongowire/wire_message.go", "x/mrpc/mongowire/wireutil.go", "x/mrpc/mongowire/wire_query.go", "x/mrpc/mongowire/wire_reply.go"],
  [("layout", "x/mrpc/mongowire/wire_*.go Serialize/parse*"), ("integers", "x/mrpc/mongowire/wireutil.go"), ("models", "x/mrpc/mongowire/message.go GetModel")],
  "./wire",
  "all ten kinds, all 32/64-bit field values and flags, namespaces and identifiers to 3 bytes (queries to 5), 0-2 documents of three shapes with symbolic content, 0-2 bodies and 0-2 sequences in OP_MSG, or 4 and 33 (thorough: 260) documents, cursors and bodies; names of 120-300 (70000) bytes; documents of 120 and 127 (70000) bytes; any checksum.",
  "names containing a null byte (the protocol cannot carry them), commands without metadata.",
  [H("RoundTrip", 120, {"NS": 3}, ("done", "command", "refused")), H("RoundTrip", 60, {"NS": -4, "BIG": 2, "MSTEPS": 100}), H("RoundTrip", 60, {"NS": 1, "MANY": 2, "MSTEPS": 100}), H("Checksum", 30)],
  [H("RoundTrip", 300, {"NS": 6}, ("done", "command", "refused")), H("RoundTrip", 200, {"NS": -8, "BIG": 4, "MSTEPS": 100}), H("RoundTrip", 200, {"NS": 0, "BIG": 8, "MSTEPS": 100}), H("RoundTrip", 200, {"NS": 1, "MANY": 3, "MSTEPS": 100}), H("Checksum", 30)])

P("P19", "Messages cross a connection whole and exactly once",
  "Reading from a connection yields the messages on it one by one, in order and complete, however the stream is split into reads or several messages arrive together; each read consumes exactly its message. A stream that ends or fails inside a message is an error and no message; one that ends between messages reports that end. Declared sizes that are negative, smaller than a header or too large are refused. Sending writes the whole message once even when writes are partial, and a failed write is reported. Cancelling the context ends a stuck read or write with an error, and a context that is already cancelled prevents any write.",
  ["inputs", "schedules", "faults"], "Every fragmentation, end or fault position, hostile size, and interleaving of cancellation.",
  "Tests use in-memory readers that deliver everything at once and never fail.",
  ["x/mrpc/mongowire/sock.go"],
  [("reading", "x/mrpc/mongowire/sock.go ReadMessage"), ("writing", "x/mrpc/mongowire/sock.go SendMessage")],
  "./wire",
  "two messages of 3x2 kinds, cut at every byte, ended by EOF or a fault, alone or with the last bytes; the first 3 reads split arbitrarily among 5 ways; messages of 120 to 5000 (thorough: 70000) bytes cut at 10 places, 40 messages on a connection; headers with any 4 bytes and up to 20 bytes after; three partial writes with faults; cancellation before or at any of the interleavings with 1 preemption (thorough: 2).",
  "connections that never return from Read (the goroutine of a cancelled read stays until they do).",
  [H("ReadStream", 120, {"FREE": 3}, ("done", "incomplete")), H("ReadHostile", 60, None, ("read",)), H("Send", 30, None, ("done", "failed")), H("Cancelled", 60), H("ReadMany", 60, {"MSTEPS": 100}), H("ReadStream", 60, {"FREE": 1, "BIG": 6, "MSTEPS": 100}, ("done", "incomplete")), H("Send", 60, {"BIG": 6, "MSTEPS": 100}, ("done", "failed"))],
  [H("ReadStream", 400, {"FREE": 4}, ("done", "incomplete")), H("ReadHostile", 200, {"N": 24}, ("read",)), H("Send", 100, {"FREE": 5}, ("done", "failed")), H("Cancelled", 200, {"PREEMPT": 2}), H("ReadMany", 60, {"MSTEPS": 100}), H("ReadStream", 200, {"FREE": 1, "BIG": 8, "MSTEPS": 100}, ("done", "incomplete")), H("Send", 200, {"BIG": 8, "MSTEPS": 100}, ("done", "failed"))])

P("P20", "Requests are routed to exactly the handler of their scope",
  "A handler is found for a request when its scope was registered with the same operation type, context and command, and otherwise when one with the same type and command but no context was; never for any other scope. A valid scope is registered at most once, also when several goroutines register at once; nil handlers and invalid scopes are refused and leave the registry unchanged; looking up does not change the request, and registration and lookup are free of data races. Commands and OP_MSG need a command name, namespaced operations a context and no command, kill-cursors neither; no other operation is a request. A namespace splits at its first dot into database and collection, and is a command namespace exactly when the collection part starts with a dollar sign.",
  ["inputs", "histories", "schedules"], "Every registration history, lookup, interleaving and namespace.",
  "Tests register a few fixed scopes.",
  ["x/mrpc/registry.go", "x/mrpc/mongowire/scope.go", "x/mrpc/mongowire/namespace.go"],
  [("registry", "x/mrpc/registry.go"), ("scopes", "x/mrpc/mongowire/scope.go Validate"), ("namespaces", "x/mrpc/mongowire/namespace.go")],
  "./wire",
  "two registrations (thorough: three over a reduced domain) and one lookup over 27 scopes; two goroutines with 2 preemptions; every 32-bit operation type; every namespace to 5 bytes.",
  "the payload field of scopes (compared by identity).",
  [H("Registry", 60, None, ("done", "found")), H("RegistryShared", 60), H("Scopes", 30), H("Namespaces", 30, {"N": 5}, ("dotted",))],
  [H("Registry", 300, {"N": 3}, ("done", "found")), H("RegistryShared", 100, {"PREEMPT": 4}), H("Scopes", 30), H("Namespaces", 60, {"N": 8}, ("dotted",))])

P("P21", "Shell requests are answered once, in their own protocol",
  "A request document sent as a command query or OP_MSG reaches its handler unchanged, and the handler's response document reaches the client unchanged, as exactly one message of the matching protocol (OP_MSG for OP_MSG, a reply otherwise). Each built-in shell command is registered for both protocols and answered with its ok status and payload; success, failure and error responses written by a handler are seen by the client with their status and error text. Error responses with fields of wrong types are refused without a panic.",
  ["inputs"], "Every argument, error text and protocol; every built-in command.",
  "There are no tests of the shell package.",
  ["x/mrpc/shell/util.go", "x/mrpc/shell/service.go", "x/mrpc/shell/io.go"],
  [("conversion", "x/mrpc/shell/util.go"), ("commands", "x/mrpc/shell/service.go"), ("responses", "x/mrpc/shell/io.go")],
  "./wire",
  "all built-in commands and one unknown, both protocols, any 32-bit argument, error texts to 3 bytes; error responses whose fields have any type and up to 6 bytes of value.",
  "the TCP accept loop.",
  [H("ShellExchange", 60), H("ShellResponses", 60, None, ("done", "echo")), H("ShellWrong", 60, {"N": 6}, ("read",))],
  [H("ShellExchange", 60), H("ShellResponses", 60, None, ("done", "echo")), H("ShellWrong", 300, {"N": 10}, ("read",))])

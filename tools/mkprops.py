#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to keep the wording of the properties)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in (state or [])],
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "observe_at": observe, "hook_needed": None}})

# ---------------------------------------------------------------- codec
p("C01", "Decoding received bytes is total, bounded and side-effect free",
  "For every non-empty byte sequence, decoding the head of a receive buffer never panics and leaves the caller's bytes unchanged. It reports a length of -1 (not a frame), 1 (ACK/NAK/CAN, whatever follows) or LEN+2 (start of frame), asking for more bytes without a message while the frame is incomplete. Message and error depend only on the bytes of that one frame, never on what follows it in the buffer.",
  ["inputs"], "all byte sequences: every start byte, LEN, function, inner length and suffix",
  "Tests decode a dozen well-formed frames, one at a time; malformed-but-checksummed frames, coalesced bytes and buffer aliasing are never tried.",
  ["serialapi/message.go", "serialapi/application_command_handler.go", "serialapi/discovery_nodes.go", "serialapi/get_node_protocolinfo.go"],
  [("Decode / NewMessage", "serialapi/message.go")], ["serialapi.Decode", "serialapi.NewMessage"])
p("C02", "Built frames are well-formed, decode back, and corruption is rejected",
  "For every command payload of 1 to 253 bytes the frame built for transmission is start-of-frame 0x01, LEN = payload length + 2, request type 0x00, the payload unchanged, and the complemented XOR of LEN..payload as checksum; decoding that frame followed by anything consumes exactly the frame and raises no checksum error. A raw command is encoded as send-data to its node with the length of its data plus one and the data unchanged. Any frame whose body or checksum has one byte changed is refused with an error and length -1.",
  ["inputs"], "all payloads up to the protocol maximum (structured), all single-byte corruptions of all positions",
  "One two-byte payload is compiled by the tests and one bad checksum tried; lengths, positions and values are unbounded by samples.",
  ["serialapi/message.go"], [("CompileMessage, GenerateChecksum, Decode", "serialapi/message.go")], ["serialapi.CompileMessage", "serialapi.Decode"])
p("C03", "Device reports decode to the values the payload encodes",
  "For every report payload: a multilevel sensor value is the signed big-endian integer of the stated size (1, 2 or 4 bytes) divided by ten to the precision, with the type name and unit of its type/scale; switch levels are capped at 100 with 0xFE marked unknown; binary, alarm, manufacturer (lower-case 4-digit hex), endpoint-count and duration fields are read from their own bytes. Payloads that are too short, of a wrong length, or of an unknown command are refused with an error and never panic.",
  ["inputs"], "all command/class pairs, all payload lengths up to the bound, all values of each field",
  "Tests sample a few payloads per report type; negative values, every precision/scale and short payloads are not covered.",
  ["commands/reports/*.go", "commands/duration.go"], [("reports.New and the New* decoders", "commands/reports/report.go")], ["reports.New", "Report.String", "commands.Duration.Duration"])
p("C04", "Node list and node capability answers decode bit-exactly",
  "A node-list answer marks node k active exactly when bit (k-1) mod 8 of byte (k-1) div 8 of its bitmap is set, for bitmaps of 6 to 29 bytes, and any other size is refused with an error. A capability answer yields listening, routing, version, speed, FLiRS, beaming, security and the three device classes from exactly the bits that carry them; a capability field of fewer than 6 bytes is refused (inside a frame the checksum byte may be taken for the sixth).",
  ["inputs"], "all bitmap sizes and bit positions, all values of the capability bytes",
  "Tests decode one 6-byte bitmap and four capability words.",
  ["serialapi/discovery_nodes.go", "serialapi/get_node_protocolinfo.go", "serialapi/message.go"],
  [("NewDiscoverdNodes, NewGetNodeProtocolInfo", "serialapi")], ["serialapi.NewDiscoverdNodes", "serialapi.NewGetNodeProtocolInfo", "serialapi.Decode"])
p("C05", "On/Off/Level put exactly the right command on the wire",
  "For every node id 1..232 and level, On, Off and Level on a node write exactly one frame, addressed to that node: a binary-switch set (0xFF/0x00) when the node has that class, otherwise a multilevel set with the level truncated to a whole number and clamped to 0..99 (below 1 is 0; On is full level), otherwise nothing at all; Level is only ever sent to a multilevel node. On an endpoint the same command is wrapped in a multi-channel encapsulation naming that endpoint, with the length field raised by the four added bytes.",
  ["inputs", "configurations"], "all node ids, endpoints, command-class sets (as ordered lists) and levels",
  "Tests encode single commands for node 99; the node and endpoint operations have no tests at all.",
  ["nodes/commands.go", "nodes/endpoints.go", "commands/*.go"],
  [("Node.On/Off/Level, Endpoint.On/Off/Level", "nodes"), ("Encode", "commands")], ["nodes.Node", "nodes.Endpoint", "bytes handed to the connection"])
p("C06", "Endpoints are addressable by the ids the device reported",
  "After a device has reported N endpoints (0..127) the node has exactly the endpoints 1..N, each carrying the node's command classes and its own state; asking for endpoint k returns the one whose id is k for 1 <= k <= N and nothing for any other k, without panicking. This also holds for a node restored from a saved configuration.",
  ["inputs", "histories"], "all endpoint counts 0..127, all requested ids, before and after a save/load cycle",
  "No test touches endpoints.",
  ["nodes/endpoints.go", "nodes/request_endpoints.go", "nodes/list.go"], [("Node.Endpoint, RequestEndpoints", "nodes")], ["nodes.Node.Endpoint", "nodes.Node.RequestEndpoints"])

# ---------------------------------------------------------------- link
p("C07", "Every well-formed frame is received once and acknowledged once, however chunked",
  "For every way the serial port splits or merges a stream of well-formed frames and ACK bytes into reads (gaps inside a frame of at most 40 ms), every frame's report reaches its node exactly once and the controller is sent exactly one ACK byte per data frame, after that frame's last byte and in order. ACK/NAK/CAN bytes are never acknowledged.",
  ["inputs", "schedules"], "all chunkings of short streams, gaps around the 40 ms limit, schedules",
  "The only connection test delivers each reply in its own read.",
  ["connection.go", "serialapi/message.go"], [("Connection.Reader", "connection.go")], ["bytes written to the port", "node state"],
  [("incomming, age", "receive buffer and time of last byte", "connection.go Reader")])
p("C08", "Noise and corrupted frames never wedge or crash the receiver",
  "Whatever bytes arrive, the receiver keeps running: bytes that are not part of a valid frame are dropped one at a time until the next frame start, corrupted frames are neither delivered nor acknowledged, and a partial frame followed by more than 40 ms of silence is forgotten. A valid frame that follows such bytes (after the silence, or as soon as the garbage before it cannot still be an incomplete frame) is delivered and acknowledged unharmed.",
  ["inputs", "fault_sequences"], "all garbage prefixes over a protocol alphabet, all truncations and byte corruptions of a frame, followed by valid frames",
  "No test feeds the reader anything but valid frames.",
  ["connection.go", "serialapi/message.go"], [("Reader resynchronisation", "connection.go")], ["bytes written to the port", "node state"])
p("C09", "Commands go out whole, in order, one outstanding at a time",
  "Every command handed to the connection is written to the port exactly once (again only after a CAN), as one unbroken frame, and in the order a caller issued them. The next command is not written until the previous one got an ACK, NAK or CAN, or one second has passed, and at least 50 ms separate two commands; this holds for any number of concurrent callers and also after reconnects.",
  ["schedules", "fault_sequences"], "all schedules of 2-3 callers against all ACK/NAK/CAN/silence answers, up to the deviation bound, with and without reconnects",
  "The connection test has one caller and always answers at once.",
  ["connection.go"], [("Connection.Writer, send channel", "connection.go")], ["sequence and times of writes to the port"],
  [("lastCommand/lastResult", "hand-over of the ACK from reader to writer", "connection.go")])
p("C10", "CAN retransmits that very command, NAK fails it at once",
  "A command answered by CAN is written again unchanged after at least 100 ms, for every CAN it receives and no other command with it, and its requester still gets the eventual answer. A command answered by NAK is not written again and its requester sees its channel closed without an answer, without waiting for the timeout; other pending requests are unaffected.",
  ["schedules", "fault_sequences"], "all sequences of ACK/NAK/CAN answers for up to three pending requests, all schedules up to the bound",
  "No test sends NAK or CAN.",
  ["connection.go"], [("Reader control-byte branch", "connection.go")], ["writes to the port", "request channels"],
  [("inFlight", "pending requests", "connection.go")])
p("C11", "Every request ends: an answer or a closed channel within its timeout",
  "For every behaviour of the controller and serial line - silence, NAK, CAN, unparsable or wrong-type answers, late answers, read errors, disconnection - the channel returned for a request delivers at most one answer, delivers an answer that arrives within the timeout, and is closed no later than its timeout after transmission (plus at most a second while an answer is being handed to a requester that does not take it). The process never panics and later requests still work.",
  ["fault_sequences", "schedules"], "all fault menus per request, answer times around the timeout, schedules up to the bound",
  "Tests only exercise the happy path.",
  ["connection.go"], [("timeoutWorker, sendPackage.Close", "connection.go"), ("WriteAndWaitForReport", "connection.go")], ["channels returned by WriteWithTimeout and WriteAndWaitForReport"])
p("C12", "An answer only completes the requests it answers",
  "A report completes a pending request only if it comes from the requested node, has the requested command class and is the expected report; all such requests get it and every other pending request stays pending. Capability answers, which carry no node id, are attributed to the node that was asked: with any response delays within the request timeout every discovered node ends up with its own capabilities.",
  ["schedules", "inputs"], "all pairs of pending requests and incoming frames over 2 nodes x 2 classes x 2 reports, all delays/orders of capability answers for 2-3 nodes",
  "The match test checks a few header combinations of one request; concurrency of requests is not tested.",
  ["connection.go", "nodes/protocol_info.go"], [("sendPackage.Match", "connection.go"), ("RequestProtocolInfo", "nodes/protocol_info.go")], ["request channels", "Node.ProtocolInfo"])
p("C13", "After losing the port the connection recovers completely",
  "When reading the port fails, the port is closed and reopened about a second later, as often as needed; commands issued while it is down never panic or block forever, requests time out normally, and after reopening commands and reports flow exactly as before. Only one port is in use at a time, and the exported connected flag is false whenever the port has been lost.",
  ["fault_sequences", "schedules"], "all positions of one or two read errors and failing reopen attempts relative to pending commands, schedules up to the bound",
  "No test loses the port.",
  ["gozwave.go", "connection.go"], [("reconnect loop", "gozwave.go"), ("Connection.Connect", "connection.go")], ["Open/Close/Read/Write calls on the port", "Connection.Connected"])
p("C14", "Connecting returns the outcome, and a failed connect leaves nothing running",
  "Connecting opens the named port (at 115200 baud) and returns a usable controller only if it was opened, returns the open error otherwise, and always returns. After it has returned an error the library never opens the port again.",
  ["schedules", "fault_sequences"], "all outcomes of the first open attempts and schedules up to the bound",
  "The test checks the error value once and stops.",
  ["gozwave.go", "connection.go"], [("ConnectWithCustomPortOpener", "gozwave.go")], ["ConnectWithCustomPortOpener", "PortOpener.Open calls"])

# ---------------------------------------------------------------- nodes
p("C15", "Discovery creates exactly the nodes in the controller's list",
  "After the controller's node list is received there is exactly one node object for each active id other than the controller itself (id 1), nodes already known from a saved configuration are kept as the same objects, and one discovery event is raised per new node (as long as the queue of ten undelivered events has room), by which time it can be found; whoever finds a node can use it. Each of them is then asked for its own capabilities. Nothing else, such as a report of an unlisted node, creates a node.",
  ["inputs", "configurations"], "every single active id 1..232, all subsets of a small id set, with and without saved nodes",
  "The test discovers one node once.",
  ["controller.go"], [("getNodes, initNode", "controller.go")], ["Controller.Nodes", "events", "requests on the wire"])
p("C16", "Identification converges to the device's full description",
  "Whatever requests go unanswered, are refused or are answered wrongly on the way, once the node answers, identification finishes with the node's own capabilities, manufacturer ids, and - if the device is in the database - its brand, product and description. Its command classes are then the mandatory classes of its device class followed by the database's classes for that product, that concatenation exactly once and not repeated by later turns, its endpoints carry the same classes, and it is never asked again for what it already answered; it is finally asked for the state of each switch and sensor class; a node restored from a saved configuration keeps its classes.",
  ["fault_sequences", "histories"], "all placements of up to two failures over the request sequence, several device descriptions, fresh and restored nodes",
  "Tests stop after the first answer.",
  ["nodes/node.go", "nodes/request_*.go", "nodes/manufacurer_specific.go"], [("Node.Identify", "nodes/node.go")], ["exported node fields", "requests on the wire"])
p("C17", "Sleeping nodes are only asked when awake, and no wake-up is missed while waiting",
  "A node that is not always listening is sent no identification request other than the controller-side capability lookup before it reports a wake-up, nor when its last wake-up is more than ten seconds ago, and a node waiting for a wake-up always proceeds when one arrives, whatever the interleaving with report processing. A wake-up never panics or blocks, and repeated or concurrent wake-ups are harmless.",
  ["schedules"], "all interleavings (at field-access granularity) of identification with 1-3 wake-up reports, up to the deviation bound",
  "No test covers wake-ups in a node.",
  ["nodes/node.go"], [("isAwake / ProcessEvent(WakeUp)", "nodes/node.go")], ["requests on the wire", "progress of Identify"])
p("C18", "Node state is the fold of the reports it received",
  "For every sequence of reports processed by a node its on/level/sensor state equals applying them in order: binary switch sets on, multilevel sets level and on = level>0, a sensor report sets only its own type_unit entry, an alarm report with status 0xFF sets the alarm entries, all others leave state unchanged. Every state-changing report raises exactly one update event naming that node, other reports raise none, and no other node changes; reports received over the wire take effect in the order received.",
  ["histories", "schedules"], "all sequences up to length 4-5 over an alphabet of reports for two nodes, direct and through the wire",
  "No test processes a report in a node.",
  ["nodes/node.go", "controller.go"], [("Node.ProcessEvent", "nodes/node.go"), ("DeliverReportToNode", "controller.go")], ["Node.StateBool/StateFloat", "events"])
p("C19", "An alarm raises at once and clears by itself one second later",
  "When an alarm report with status 0xFF arrives, the node's alarm state is set immediately with its type and an event raised; an alarm that no other one overlaps stays set for one second, then is cleared with a second event while the last alarm type is kept. During that second the node stays readable and other reports are applied normally; overlapping alarms always end cleared, with two events per alarm.",
  ["schedules", "histories"], "all placements of up to three alarms and other reports around the one-second window, schedules up to the bound",
  "No test delivers an alarm to a node.",
  ["nodes/node.go"], [("ProcessEvent(Alarm)", "nodes/node.go")], ["Node.StateBool/StateFloat at virtual times", "events"])
p("C20", "Events are delivered in order and never block the controller",
  "The event channel delivers events in the order they were raised; up to ten undelivered ones are kept, later ones are dropped until there is room, and neither a slow nor an absent consumer ever delays report processing, discovery or saving.",
  ["schedules", "histories"], "all patterns of raising and consuming around the queue capacity, schedules up to the bound",
  "Tests never read the event channel.",
  ["controller.go"], [("pushEvent, GetNextEvent", "controller.go")], ["Controller.GetNextEvent"])

# ---------------------------------------------------------------- persistence
p("C21", "Saving and loading a configuration loses nothing",
  "For every set of nodes, saving to a file and loading it into a new controller reproduces every node's id, awake flag, manufacturer ids, brand/product/description, command classes (all fields), endpoints and state exactly, raises one discovery event per node, and the loaded nodes and endpoints are fully operational. Saving again produces an equivalent file, and loading a file again restores what it contains.",
  ["configurations", "inputs"], "all combinations of field variants per node, 0-3 nodes, then commands and reports on loaded nodes",
  "No test saves or loads.",
  ["controller.go", "nodes/list.go", "nodes/node.go"], [("SaveConfigurationToFile, LoadConfigurationFromFile", "controller.go")], ["file content", "Controller.Nodes"])
p("C22", "A crash or write error during a save never loses the configuration",
  "At whatever point the process dies, or a file operation fails, during a save, the configuration file afterwards still loads and is either the complete previous or the complete new configuration. A save that could not be completed reports an error; one that reported none has put all that was changed before it was called into the file, also while other saves are going on.",
  ["crash_points", "fault_sequences"], "every prefix of the save's file operations, every torn prefix of every write, every failing operation",
  "No test interrupts or fails a save.",
  ["controller.go"], [("SaveConfigurationToFile", "controller.go")], ["configuration file after the crash", "returned error"])
p("C23", "Updates are saved automatically, debounced to ten quiet seconds",
  "After any update event the configuration file is rewritten once ten seconds pass without a further update, not before and not more than once per quiet period, and the saved file contains every update raised up to then. No update is ever left unsaved as long as the file can be written, and without a file name nothing is written.",
  ["schedules", "histories"], "all sequences of updates over a grid of gaps around ten seconds, schedules up to the bound",
  "No test waits for an automatic save.",
  ["controller.go"], [("saveDebouncer, pushEvent", "controller.go")], ["file writes at virtual times"])
p("C24", "A missing, empty, truncated or odd configuration file never prevents start-up",
  "Whatever the configuration file contains - missing, empty, any truncation of a valid file, or JSON lacking nodes or node fields - loading never panics, reports an error when nothing usable could be read, and connecting proceeds with normal discovery. Nodes that were loaded accept reports and commands.",
  ["inputs", "crash_points"], "every prefix of valid files, all JSON documents over a small grammar of missing/null/empty members",
  "No test loads a file.",
  ["controller.go", "nodes/list.go"], [("LoadConfigurationFromFile", "controller.go")], ["LoadConfigurationFromFile", "ConnectWithCustomPortOpener"])

# ---------------------------------------------------------------- concurrency
p("C25", "Concurrent use of the API never deadlocks or corrupts maps",
  "Looking up and listing nodes, reading node fields under the node's lock, reports arriving, discovery, commands, identification, reconnects and saving may all run at the same time: no schedule deadlocks any of them, and no map is ever accessed concurrently with a write to it (which Go turns into a process abort).",
  ["schedules"], "all schedules of 2-4 concurrent operations up to the deviation bound, with happens-before checking of every map access",
  "Tests are single threaded apart from the reader/writer pair.",
  ["nodes/list.go", "nodes/node.go", "controller.go", "connection.go"], [("List/Node/Connection locks", "nodes/list.go, nodes/node.go, connection.go")], ["completion of calls", "map accesses"])

# ---------------------------------------------------------------- database / tools
p("C26", "The device database returns exactly the device that was asked for",
  "For every device file in the database and every product reference in it, looking up its manufacturer, type and product id as reported over the air yields that device's brand, product, description and command classes (first definition wins on duplicates) as a fresh object; every other id triple yields nothing.",
  ["inputs"], "all product references of all device files, and all near-miss triples formed from known ids",
  "The database package has no tests.",
  ["database/devices.go", "database/json"], [("database.New", "database/devices.go")], ["database.New"])
p("C27", "Mandatory command classes follow the device-class table and are never altered",
  "For every pair of generic and specific device class, the mandatory command classes are those classes the table lists for that pair that the library knows, in order, and none for unlisted pairs. Identifying nodes with them never changes what later nodes get.",
  ["inputs", "histories"], "all 65536 generic/specific pairs, before and after identifying nodes",
  "The database package has no tests.",
  ["database/commandclasses.go", "database/mandatory.go", "database/mandatory.txt"], [("GetMandatoryCommandClasses", "database/commandclasses.go")], ["database.GetMandatoryCommandClasses"])
p("C28", "The serial recorder logs exactly the bytes transferred and alters nothing",
  "The recorder opens the port with the name and speed it was given, and through it every read and write returns the same bytes, counts and errors as the port itself. The log decodes to one row per read and per write that transferred bytes, with the right direction, the time at which it happened and exactly those bytes, the rows of one direction in order, even if the caller reuses its buffers at once or the log is written slowly, also after the port is reopened.",
  ["schedules", "inputs"], "all interleavings of reads, writes, reopenings and buffer reuse up to the bound",
  "The test logs a single row.",
  ["serialrecorder/serialrecorder.go"], [("Read/Write/writeToLog/logWriter", "serialrecorder/serialrecorder.go")], ["Logger output", "returned values"])
p("C29", "The recording converter prints every recorded byte once, in order",
  "For every recording whose timestamps do not decrease within a direction, the hex output contains all bytes of the selected directions exactly once and in recorded order per direction, merging rows of one direction less than a millisecond apart and separating others, with rows in time order. Direction filters drop only the other direction.",
  ["inputs"], "all recordings of up to 4-5 rows over two directions and gaps around one millisecond",
  "The command has no tests.",
  ["cmd/serialrecordingtohex/serialrecordingtohex.go"], [("logRowCombiner", "cmd/serialrecordingtohex")], ["standard output"])
p("C30", "The database generators reproduce their sources faithfully",
  "For every device description, the generated Go code is valid and the device it constructs has the same brand, product, description, command classes and parameters, whatever characters the texts contain (manufacturer and product ids are hexadecimal; the command classes are those of the first endpoint), with the first of duplicate ids kept. The mandatory-class generator emits exactly the listed classes for every listed device type.",
  ["programs", "inputs"], "all texts up to length 3 over an alphabet of special characters, all combinations of optional members, plus the shipped database",
  "The generator's test file does not compile.",
  ["generators/database/database.go", "generators/commandclasses/commandclasses.go"], [("templates and escaping", "generators")], ["generated source"])

p("C31", "Nothing accumulates: what has ended leaves nothing behind",
  "However often anything is repeated - requests that are answered, refused, retransmitted, answered late or wrongly, left unanswered or whose answer nobody takes, commands, reports, alarms, wake-ups, noise, losses of the port, saves, loads, identifications and attempts to identify nodes that cannot be reached - once it has ended (its timeout has passed, ten quiet seconds for a save) no goroutine, timer or data of it remains: the controller does not grow with its history.",
  ["histories", "schedules"], "all sequences of two and three operations out of 38, repeated, and two of them at once on all schedules up to the bound",
  "No test looks at what is left when a request is over, and a leak shows only after days.",
  ["connection.go", "controller.go", "nodes/node.go"], [("Writer, timeoutWorker, WriteAndWaitForReport", "connection.go"), ("pushEvent, saveDebouncer", "controller.go"), ("ProcessEvent, Identify", "nodes/node.go")], ["number of goroutines", "memory reachable from the controller"])

p("C32", "Concurrent use is free of data races",
  "When the API is used from several goroutines while the controller works - looking up, listing and commanding nodes and endpoints, asking them for anything, identifying them, feeding them reports, reading their fields and the connected flag under their locks, saving, loading, discovering, losing and reopening the port (also through the recorder), one or two controllers in a process - every two accesses to the same field or package variable of the library, one of them a write, are ordered by synchronisation.",
  ["schedules", "histories"], "all pairs (triples) of 30 operations on a node at every stage of its identification, all pairs of 38 operations on the connection, and two controllers, on all schedules up to the bound",
  "The tests run few things at once, and the race detector only sees the accesses of the one schedule that happened.",
  ["connection.go", "controller.go", "nodes/node.go", "nodes/endpoints.go", "serialrecorder/serialrecorder.go"], [("HasCommand, Identify", "nodes/node.go"), ("Endpoint, RequestEndpoints", "nodes/endpoints.go, nodes/request_endpoints.go"), ("Read, Write, Open", "serialrecorder/serialrecorder.go"), ("Connect, Writer", "connection.go")], ["accesses to fields and package variables"])

p("C33", "The example's web server tells and switches the nodes truthfully",
  "Whatever is requested of the example program, in whatever state its controller is: GET /nodes answers 200 with exactly the known nodes, /nodes/ID 200 with the current state of that node, 404 when there is none and an error when ID is no number; /nodes/ID/on and /off send exactly one command to exactly that node and answer 200; an unknown node, action or page sends nothing and answers an error. Requests made one after another reach the stick in that order. Requests together with each other, with arriving reports, with the identification and with outages of the stick are all answered, never crash, race or tell of a node in the middle of a change, and the server and the node work as before afterwards.",
  ["inputs", "schedules", "histories"], "96 paths after each kind of request and report; pairs of requests and reports on all schedules up to the bound; eight moments of the identification; losses of the stick",
  "The example has no test at all, and its handlers share the nodes with the goroutines that update them.",
  ["zwave-example/example.go"], [("getNodes, getNode, control, main", "zwave-example/example.go"), ("MarshalJSON", "nodes/list.go")], ["web handlers of the example"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))

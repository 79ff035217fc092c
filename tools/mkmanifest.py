#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
SCHED = "stateless model checking of the real code: all schedules and environment answers up to a deviation bound under a controlled scheduler with virtual time"
ENUM = "bounded exhaustive state-space enumeration of the real code (every input of a stated finite space) against a reference model"
TRUST = " Trusts the overlay instrumentation (sequential consistency; scheduling points at synchronisation operations, map accesses and, in the scenarios marked fine, accesses to mutable fields) and the virtual clock (computation takes no time)."
M = {
 "C01": (ENUM, "exploration", "All byte strings up to length 3 (4 over an alphabet), all frames of every LEN x function with every structured inner length, with every kind of following bytes; decoder compared with an independent reference decoder, input bytes compared before/after."),
 "C02": (ENUM, "exploration", "All payload lengths 1..253 with structured contents, all single-byte corruptions (every position and value), plus every payload length over the real writer and reader."),
 "C03": (ENUM, "exploration", "All class/command pairs, all payload lengths, all values of every field (16-bit exhaustive, 32-bit structured) against independently written decoders."),
 "C04": (ENUM, "exploration", "All bitmap sizes 0..40, every bit, all values of every capability byte and all pairs of the first two; direct and inside frames."),
 "C05": (SCHED, "model_checking", "All nodes x class lists x levels handed to a recording connection (enumeration), and concurrent commands over the virtual port under all schedules up to the bound."),
 "C06": (SCHED, "model_checking", "Every endpoint count 0..127 and every id, over the wire, saved and loaded again; look-ups during the report under all schedules up to the bound."),
 "C07": (SCHED, "model_checking", "All chunkings (up to two deviating cuts with gaps around the limit from three base chunkings, every chunking of a short stream in the thorough tier) of mixed streams; reference receiver; schedules up to the bound."),
 "C08": (SCHED, "model_checking", "All garbage prefixes over a protocol alphabet, every single-byte corruption, every truncation with every silence, frames with lying length fields; reference receiver."),
 "C09": (SCHED, "model_checking", "1-3 callers against all answers, reconnects and slow ports; the sequence and virtual times of all writes are judged."),
 "C10": (SCHED, "model_checking", "All CAN/NAK/ACK sequences against up to three pending requests and a concurrent caller, under all schedules up to the bound."),
 "C11": (SCHED, "model_checking", "All sequences of two (thorough: three) actions of the stick at eight times around the timeout; timeouts racing with answers under all schedules up to the bound."),
 "C12": (SCHED, "model_checking", "All pairs of pending requests x incoming frames; capability answers of 2-3 nodes with all delays and orders."),
 "C13": (SCHED, "model_checking", "All positions of one or two losses and failing reopens relative to traffic; all schedules up to the bound; only one port in use, flag sampled throughout."),
 "C14": (SCHED, "model_checking", "All outcomes of the first opens and of the start-up dialogue under all schedules up to the bound; opens after a reported failure are counted for minutes of virtual time."),
 "C15": (SCHED, "model_checking", "Every single id, all subsets of a small id set x saved nodes, growing and lost lists, schedules up to the bound."),
 "C16": (SCHED, "model_checking", "All placements of up to two (thorough three) failures of any kind over the identification dialogue of several simulated devices, fresh and restored."),
 "C17": (SCHED, "model_checking", "Identification of a sleeping device against wake-ups at every point, at field-access granularity, up to the deviation bound."),
 "C18": (SCHED, "model_checking", "All report sequences up to length 4-5 over the wire against a reference fold; every value of every report type; order under all schedules up to the bound."),
 "C19": (SCHED, "model_checking", "All placements of up to three alarms and other reports around the one-second window; state probed at virtual times."),
 "C20": (SCHED, "model_checking", "All patterns of raising and consuming around the queue capacity, schedules up to the bound; report processing, discovery and saving must go on without a consumer."),
 "C21": (SCHED, "model_checking", "All combinations of field variants of saved nodes, saved to a simulated file system, loaded into a new controller, operated and saved again."),
 "C22": ("exhaustive crash-point and file-fault enumeration (model checking of the save's file-operation history) on the real code over a simulated file system", "fault_enumeration", "Every prefix of the save's file operations, every torn prefix of every write, every failing operation, alone and during a second save; the file must then load as old or new."),
 "C23": (SCHED, "model_checking", "All sequences of updates over gaps around ten seconds and updates racing the save under all schedules up to the bound; file writes judged at virtual times."),
 "C24": (SCHED, "model_checking", "Every prefix of valid files, all documents over a grammar of missing/null/odd members in every node field, read failures; start-up, discovery and operation afterwards."),
 "C25": (SCHED, "model_checking", "All pairs (and triples) of twelve operations under all schedules up to the bound, with deadlock detection and happens-before checking of every map access."),
 "C26": (ENUM, "exploration", "Every product reference of every device file, every near miss; the JSON sources are read independently; a device reported over the air gets its entry."),
 "C27": (ENUM, "exploration", "All 65536 pairs before and after identifying nodes of every listed type."),
 "C28": (SCHED, "model_checking", "All call sequences of reads, writes, short/failed transfers, reopenings and buffer reuse; a reader, a writer and a reopening under all schedules up to the bound; the library through the recorder."),
 "C29": (ENUM, "exploration", "The real converter binary on all recordings up to 5 (thorough 6) rows over two directions and gaps around one millisecond, with every filter, against a reference."),
 "C30": (ENUM, "exploration", "The real generator binaries on all texts up to length 3 over special characters in every member, all combinations of optional members, layouts of the table, and the shipped sources; the generated code is compiled, run and compared."),
 "C31": (SCHED, "model_checking", "All pairs (thorough: triples) of 38 operations with three gaps, repeated six times, with and without a configuration file, and all pairs at once under all schedules up to the bound; after each time goroutines, timers and the data reachable from the controller and the package variables are counted and must have stopped growing."),
 "C32": (SCHED + ", with vector-clock checking of every field access", "model_checking", "All pairs (thorough: triples, and pairs on all schedules up to the bound) of 30 operations on a node at four stages, all pairs of 38 operations on the connection, two controllers, the recorder and two identifications under all schedules up to the bound; every field and package variable access is recorded with vector clocks and must be ordered with every conflicting one."),
 "C33": (SCHED, "model_checking", "The main function of the example runs with a simulated stick, its handler is asked directly: 96 paths after 8 requests and 3 reports; pairs of requests and reports, requests while a report is on its way, during the identification and without a stick under all schedules up to the bound, with happens-before checking; sequences of three commands in order."),
}
checks = []
for i in range(1, 34):
    k = "C%02d" % i
    t, lv, n = M[k]
    if lv != "exploration": n += TRUST
    checks.append({"property": k, "quick_cmd": "./check.sh check " + k, "thorough_cmd": "VERIF_TIER=thorough ./check.sh check " + k,
                   "evidence_file": "evidence/%s.json" % k, "technique": t, "level": lv, "level_note": n})
m = {"version": 1, "setup_cmd": "./check.sh build", "hooks": {"guard": "none", "enable": "no hooks in /repo: the checks instrument a copy of its sources in memory and hand it to the compiler with -overlay", "source_commits": []},
     "checks": checks, "not_applicable": [],
     "notes": "Every check rebuilds the instrumented library from /repo's working tree. A violation is re-executed from its recorded choices before it is reported; ./check.sh replay FILE runs it again."}
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w"), indent=1)

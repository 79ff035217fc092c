#!/usr/bin/env python3
"""Writes /verif/known-findings.jsonl: one line per genuine defect that was found. All were repaired; a fixed entry suppresses nothing."""
import os, subprocess
F = [
 ("decode only the frame", "C01", "Decode handed the whole receive buffer, not the one frame, to the message decoders and changed the caller's bytes"),
 ("refuse messages shorter", "C01,C04,C08", "short or lying but correctly checksummed messages made the decoders panic (index out of range), killing the process"),
 ("match a pending request", "C08,C12", "requests were matched against bytes beyond the received frame (panic or wrong match when frames were coalesced)"),
 ("apply ACK/NAK/CAN", "C10,C09", "CAN/NAK were applied to the wrong command; the reader and writer raced on the last command"),
 ("requests survive undecodable", "C11", "an undecodable answer or a request closed before its caller ran panicked or leaked the caller"),
 ("one writer for all ports", "C09,C13", "each reconnect left the old writer running (two writers on one port) and a failed reopen left a nil port"),
 ("the connected flag stays", "C13", "the connected flag stayed true when the port was lost right after opening"),
 ("stop opening the port", "C14", "after a failed connect had been reported the library went on opening the port"),
 ("lock the node list itself", "C25", "the node list locked a copy of its mutex and handed out its map: concurrent map access aborts the process"),
 ("create the wake-up channel", "C17", "the wake-up channel was created outside the lock: a wake-up could be missed or close a nil channel"),
 ("keep the product's command", "C16", "a further identification turn dropped or repeated the product's command classes"),
 ("address endpoints by", "C06,C05", "endpoints were numbered from 0 and looked up by slice position"),
 ("save the configuration atomically", "C22", "the configuration was truncated and rewritten in place, errors ignored: a crash lost it"),
 ("survive configuration files without", "C24", "configuration files without nodes or with missing members made start-up or later reports panic"),
 ("record the bytes that were", "C28", "the recorder logged whole buffers instead of the transferred bytes, aliased the caller's buffer and restarted the gob stream on reopen"),
 ("a failed reopen does not leave", "C28,C13", "a failed reopen left the recorder with a nil port: the next write panicked"),
 ("print the last rows", "C29", "the last rows of a recording were never printed"),
 ("ask for the capabilities of one", "C12", "capability answers carry no node id and were given to whichever node was waiting"),
 ("apply reports in the order", "C18,C19", "every report was applied in a goroutine of its own, so two reports could be applied in the wrong order"),
 ("wire a discovered node up", "C15", "a discovered node was listed before it was connected to its events: reports raised no event"),
 ("escape NUL and byte order", "C30", "NUL and byte order marks in device texts produced Go code that does not compile"),
 ("detect duplicate device ids", "C30", "duplicate ids differing in case produced duplicate map keys / the last definition won"),
 ("recognise Multichannel Association", "C27,C30", "Multichannel Association in the mandatory table was silently left out"),
 ("escape the versions", "C30", "versions of command classes were not escaped in generated code"),
 ("keep the last mandatory", "C30", "the last block of the mandatory table was lost when the file ended without an empty line"),
 ("record reads and writes in the order", "C28", "rows of concurrent reads and writes were logged in the wrong order"),
 ("leave a goroutine behind", "C31", "the goroutine of a request whose answer nobody takes was never ended"),
 ("do not remember commands", "C31", "every command without an answer stayed in the in-flight list for ever"),
 ("do not use the recorded port", "C32", "the recorder's port was replaced on reopening while reads and writes used it"),
 ("read the endpoints and command", "C32", "looking up an endpoint or a command class raced with identification and could index a slice that had just been replaced"),
 ("look at the manufacturer", "C32", "a second identification read the manufacturer ids while the first stored them"),
 ("encode the nodes of the example", "C33", "the example encoded nodes while reports changed them, and could crash or tell half a change"),
]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()
out = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known-findings.jsonl"), "w")
for key, props, what in F:
    h = [l.split()[0] for l in log if key in l]
    assert len(h) == 1, (key, h)
    for p in props.split(","):
        out.write("fixed: property=%s %s %s\n" % (p, h[0], what))

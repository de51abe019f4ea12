#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
M, F = "model_checking", "fault_enumeration"
BASE = "stateless model checking of the real code: exhaustive enumeration of "
N = {
 "C01": (M, "all typed write/read sequences up to a depth, with a byte-list reference", "Complete for the sequences and value alphabets; memory safety by AddressSanitizer."),
 "C02": (M, "all paths over 16-bit id alphabets and all truncations and mutations of encodings, with a reference segment codec", "Each id takes all its values with the others at boundaries."),
 "C03": (M, "services, paths, sizes and item lists through a real session to a strictly decoding reference device", "Sizes around each limit of a length field, each service and status."),
 "C04": (M, "statuses, status words, sizes, items and truncations of replies of a reference device", "Every truncation and every wrong length of the replies enumerated."),
 "C05": (F, "segmentations and fault sequences at every socket call of one to three exchanges in a simulated network", "All placements of up to the stated number of faults; TCP is simulated at the system call boundary. One known finding."),
 "C06": (M, "session lifecycle histories with faults at every system call", "All placements of up to the stated number of faults."),
 "C07": (F, "failures of every system call on every path, with an audit of descriptors", "The audit sees every descriptor the library opens, closes or uses."),
 "C08": (M, "open parameters over boundary alphabets and histories of opens, with a reference decoder", "Fields wider than 16 bits over boundary values."),
 "C09": (M, "histories of opens, refusals, closes, time-outs and data, with a reference bookkeeping model", "All histories up to the depth."),
 "C10": (M, "sequences of implicit messages of all shapes to connections of all formats, with a reference dispatcher", "All sequences up to the depth over the shapes."),
 "C11": (M, "schedules of service calls over a time alphabet on a virtual clock, with a timed reference model", "All schedules up to the depth; the clock is virtual and exact."),
 "C12": (M, "schedules of service calls and arrivals around the expiry on a virtual clock, with a timed reference model", "All schedules up to the depth; all multiplier codes."),
 "C13": (F, "truncations, mutations and length values of every message at every receiving entry point under AddressSanitizer", "Single (thorough: some double) mutations of well-formed messages and all short byte strings over an alphabet; uninitialised reads are not detected as such."),
 "C14": (M, "histories of device answers to an upload, with a reference upload model", "All histories up to the depth, file sizes around each boundary."),
 "C15": (M, "sequences of discovery answers and socket errors, with a reference decoder", "All truncations, all sequences up to the depth."),
 "C16": (M, "attribute values, sizes, refusals and truncations of parameter reads, with a reference attribute model", "All data sizes and string lengths, each byte of each scaling attribute."),
 "C17": (M, "raw values and scaling attributes, with exact rational arithmetic as reference", "All 8 and 16-bit raw values, boundary values of wider ones."),
 "C18": (M, "attribute values, lengths, refusals and truncations of identity reads, with a reference attribute model", "Each attribute byte by byte, all name lengths."),
 "C19": (M, "fault queue contents and failing replies at every read, with a reference queue model", "All queue lengths, all codes, each reply refused and truncated."),
 "C20": (M, "setter sequences and words, with a reference field model", "All 16-bit words; all setter sequences up to the depth."),
 "C21": (M, "pairs and triples of addresses and conversions, with order axioms", "All pairs and triples of the stated set."),
 "C22": (M, "histories of level changes, appender changes and nested messages, with a reference logger", "All histories up to the depth."),
 "C23": (M, "arrival schedules, handlers and faults of waits on a virtual clock, with a timed reference model", "All schedules up to the bounds, to 1 ms."),
 "C24": (M, "listener actions at every callback of service histories, with the bookkeeping model applied at callback time", "All placements of up to the stated number of actions, under AddressSanitizer."),
 "C25": (M, "timeouts, late and missing answers and interrupts of every wait on a virtual clock", "Every millisecond up to 3 s and around longer seconds."),
 "C26": (F, "log levels, appender behaviours and failing system calls in every operation, each history compared with itself without logging", "The same choices of the environment are repeated with and without logging."),
 "C27": (F, "failing system calls with every error of the simulation in every operation, compared with the reported error", "All placements of up to the stated number of faults."),
 "C28": (M, "histories of sends, receives and arrivals at stream and datagram sockets, with a reference of byte and datagram queues", "All histories up to the depth."),
 "C29": (M, "field values, bit differences, lengths and setter histories of every message class, with a reference codec", "Wide fields over boundary alphabets, every bit of the header."),
 "C30": (M, "interleavings and nestings of the steps of several objects, each compared with its own run alone", "All interleavings of pairs, bounded preemptions of triples, bounded nesting in callbacks."),
 "C31": (M, "placements of raising callbacks in histories of service calls, uploads, waits and fault handlings, with the bookkeeping models of the other properties", "All placements of up to the stated number of exceptions, eight kinds of them, under AddressSanitizer."),
 "C32": (M, "refusals, requests, failing events of connections and log levels, with a recording appender and a reference of what is to be named", "All statuses; all event sequences up to the depth; each program run in a process of its own at every level."),
}
checks = []
for pid, (level, what, note) in N.items():
    checks.append({
        "property": pid,
        "quick_cmd": f"python3 check.py {pid}",
        "thorough_cmd": f"python3 check.py {pid} --tier thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": BASE + what,
        "level": level,
        "level_note": note + " Exhaustive within the bounds written to the evidence file; trusts the simulated environment (mc/sim.cpp), the reference (mc/ref.h) and the compiler.",
    })
json.dump({
    "version": 1,
    "setup_cmd": "python3 check.py C01 --build-only",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks in /repo: the checks compile the sources as they are and redirect system calls by the linker (--wrap).",
}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

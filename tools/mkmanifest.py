#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T_BUF = "deterministic simulation of the buffer and its cursors: seeded operation histories with arrival, stall and panic faults, refinement against a reference model"
T_ZOO = "deterministic simulation of parsing sessions: seeded inputs, delivery schedules and faults over a zoo of parser types, refinement against a grammar model"
N = "Seeded sampling: evidence, not proof. Every failure replays exactly from its file. "
BUFN = N + "Real Buf/Cursor code; simulated source, element clones and drops; both profiles (with and without debug assertions). "
ZOON = N + "Real library and derive output; simulated source, scripted user parsers and conversions; both profiles. Trusts the grammar model in sim/src/model.rs; types outside the hand-written and generated zoo are not covered. "
C = {
 "C01": (T_BUF, BUFN + "Histories up to some 60 operations."),
 "C02": (T_BUF, BUFN + "Cursor stacks up to depth 5, abandonment by drop and by unwinding."),
 "C03": (T_BUF, BUFN + "Commits at every depth, also after the end of input was met and more arrived."),
 "C04": (T_BUF, BUFN + "Stalls, source panics and clone panics placed inside the operations that pull."),
 "C05": (T_ZOO, ZOON + "Judged only where an attempt was really given up or torn down."),
 "C06": ("deterministic simulation: peek and parse of the real code run on equally delivered inputs and compared, with cut-offs and corruption as faults", N + "No grammar model involved except to recognise runs that fail by conversion; both profiles."),
 "C07": (T_ZOO, ZOON + "Text primitives over all of Unicode's length classes, byte primitives over all bytes; stalls and arrivals inside the parse."),
 "C08": (T_ZOO, ZOON),
 "C09": (T_ZOO, ZOON + "Both the parse functions behind #[nommy(vec)]-style attributes and the library's list functions."),
 "C10": (T_ZOO, ZOON),
 "C11": (T_ZOO, ZOON),
 "C12": ("deterministic simulation: the entry points run on late-delivering sources and compared with running the parser by hand", N + "Only calls that return are judged."),
 "C13": ("deterministic simulation with allocation, drop and clone accounting; panics injected into user parsers, conversions, clones and the source", N + "Heap balance is counted per session by the simulator's allocator; elements and values carry identities."),
 "C14": ("deterministic simulation with the source's reads counted against the need computed by the reference models", BUFN + "Only pulling too much is an alarm; pulling less, or polling a source that has nothing, is not."),
 "C15": ("deterministic simulation with a bounded budget of source reads and a watchdog: liveness after any cut-off", ZOON),
 "C16": (T_ZOO, ZOON + "Checks that the named components appear in the error chain in order, not the exact wording."),
 "C17": ("deterministic simulation of threads: real threads released one at a time by a seeded scheduler at every source read; each session compared with itself alone", N + "Interleaving points are the reads of the source, user-code calls, drops and, in a third of the runs, every operation on a buffer or cursor; there are no other synchronisation points in the library. Data races invisible at that granularity are not covered."),
 "C18": ("deterministic simulation: the same input delivered under different schedules, faults and abandoned attempts; differential against delivery at once", ZOON),
 "C21": ("deterministic simulation of endless streams: seeded programs of parses, skips, peeks, abandoned attempts and faults repeated along them, heap use bounded by the look-ahead", N + "Heap use is counted by the simulator's allocator; the bound leaves room for amortised storage (8 element sizes per element of look-ahead, 8 kB besides), so a small constant number of retained elements is not seen. Streams of 20,000 characters or 80,000 bytes stand for endless ones."),
 "C22": ("deterministic simulation with every operation on buffers and cursors counted and held against what a reference model of the grammar has to look at, over seeded long inputs, deliveries, faults and histories", ZOON + "The hook in /repo counts operations. The bound is 16 operations per look or attempt of the model, and 400 besides (some four are used): a constant factor below that is not seen, growth is."),
 "C20": ("deterministic simulation of parsing sessions over types with numbers in them, digit runs around the limits damaged and delivered in pieces, against a grammar model with its own arithmetic", ZOON + "usize of 64 bits."),
 "C23": ("deterministic simulation of parsing sessions with user-written parsers and conversions that fail, the cause named by a grammar model looked up in the error chain by type and contents", ZOON + "Causes inside enums, prefixes, suffixes and ignored parts are not judged."),
 "C24": ("deterministic simulation with the stack's depth sampled at every operation, over seeded long and nested inputs, deliveries, faults and histories", ZOON + "The bound is 64 kB and 16 kB per level of nesting in a build without optimisation (some 4 kB are used); stack used between two samples is not seen unless it overflows."),
}
m = {
 "version": 1,
 "setup_cmd": "python3 check.py --setup",
 "checks": [{"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
             "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "exploration", "level_note": n.strip()} for p, (t, n) in sorted(C.items())],
 "not_applicable": [
  {"property": "C19", "reason": "Decided by the compiler while it expands the macro: a pure function of the program text, with no run, schedule, time, I/O or fault for a simulator to control."}
 ],
 "hooks": {"guard": "cfg nommy_sim", "enable": "RUSTFLAGS=\"--cfg nommy_sim\" (set by check.py)",
           "source_commits": ["5b403c496a26bb625655e08e0332da795cc003e2"]},
 "notes": "The source iterator, the element type's Clone/Drop, and user-written parsers and conversions are the seams; a hook under cfg(nommy_sim) tells the simulator of each operation on a buffer or cursor, to count it, to stop a call that does not end, and to switch threads there. Replay a violation with: python3 check.py PROP --replay FILE. Determinism self-test: python3 check.py --determinism.",
}
json.dump(m, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w"), indent=1)

#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
ASSUME = ("Exploration by seeded search: no proof of absence. Trusts the "
          "simulator in /verif/dst (one thread runs at a time; preemption "
          "between byte code lines of the library and at calls into and out "
          "of it), CPython 3.12 and the reference model of this check. ")
T = "deterministic simulation: "
CHECKS = [
 ("C01", T + "seeded preemptive schedules of reader threads on a fresh simulated process, each result compared with the same call alone in a fresh process",
  "Schedules are placed from traced dry runs (first-use code preferred), up to 4 threads."),
 ("C02", T + "seeded declaration orders and preemptive schedules of declaring threads; resulting types probed and compared with single declarations in a fresh process",
  "Probes are sampled constructions, assignments, conversions of each declared type."),
 ("C03", T + "interrupt, allocation failure or user-function failure injected at a seeded step of any operation; the rest of the process compared with one where it never happened",
  "Interrupts surface between library lines or at calls, not inside C code."),
 ("C04", T + "seeded operation histories with faults injected in user functions, iterators and at any step; type invariant checked on the whole object graph after each operation",
  "The invariant is evaluated by an independent reading of the schema."),
 ("C05", T + "every refused single-target change in seeded histories with injected failures; before/after snapshots and a clean retry",
  "Snapshots are structural (all slots and items, types, sharing not compared)."),
 ("C06", T + "seeded operation histories with failing coercion/iterators, step-by-step refinement against built-in list and dict",
  "The model coerces items by an independent reading of the item type."),
 ("C07", T + "save by pickle, copy or JSON, seeded crash during save, restart of the simulated process with other declaration order and hash seed, load; populated slots, types, equality and type checking compared",
  "JSON round trips only for values with a JSON form declared both ways."),
 ("C08", T + "comparisons consumed interleaved, abandoned, interrupted, in preempted threads and under two orders of all internal sets; finished comparisons checked against an independent model of the differences",
  "Options ignore_empty_* and duck_type are judged for independence of order and pacing only."),
 ("C09", T + "seeded histories of selector operations with failing user functions and interrupts, each compared with direct access in a second process and containment of changes checked by identity",
  "Mistyped steps are only required to leave the rest unchanged; deleting an unset field is no change."),
 ("C10", T + "seeded visits and casts in preempted threads, nested, abandoned, and hit by failing functions and interrupts; every call of the user's function compared with an independent walk of the graph",
  "Casts are judged for graphs which a default visit keeps whole; no unions holding records in casts."),
 ("C11", T + "one failing value or user function call injected at a seeded spot of each document, in preempted threads; the path in the error compared with the spot worked out from document and schema, then the corrected document converted",
  "Paths are judged for failures at known spots; interrupts pass through without a path."),
 ("C12", T + "seeded preemptive schedules of readers and writers of lazy properties with failing computations; each history checked for linearizability as one cell, call counting in single-threaded runs",
  "At most 14 observations per property and history."),
 ("C13", T + "seeded histories of reading operations that reuse kept selectors, documents, path lists and options, failing, interrupted, abandoned or preempted; identity of everything passed in checked after each operation, then results torn apart",
  "What a visit yields and what a record takes from a document (but for unknown keys) may share parts with the source."),
 ("C14", T + "seeded operation histories with faults at any step; presence of required and defaulted values and immutability of read-only values checked after each operation",
  "Evaluated by an independent reading of the schema."),
 ("C15", T + "documents damaged in transport (cut, flipped, lost, doubled, reordered, mixed, broken UTF-8) delivered as text, bytes or loaded among failing, interrupted and preempted conversions; results compared with an independent slot-by-slot reading of the parsed content",
  "Values of another JSON type than the slot's are judged only where the coercion is documented."),
 ("C19", T + "the same seeded history run in simulated processes with different iteration orders of all internal sets and in a peer process with another hash seed; outcomes and final objects compared",
  "Orders by object address are searched only through the set seam."),
 ("C20", T + "seeded paths through unset values in preempted threads with interrupts and allocation failures; each end compared with an independent walk over schema and raw values",
  "No lazy properties; no slices of what cannot be subscripted."),
]
NA = [
 ("C16", "A pure function of the selector: no schedule, time, I/O, crash or multi-party behaviour for a simulator to vary; it would be plain input generation."),
 ("C17", "Algebraic laws of pure comparison and hashing of finished objects; nothing for a scheduler or fault injector to decide (the part that depends on process history or schedule is C01)."),
 ("C18", "A pure function of two strings and options; nothing for a scheduler or fault injector to decide."),
]
m = dict(version=1,
  setup_cmd=PY + " -m dst.driver --selftest",
  checks=[dict(property=i, quick_cmd="VERIF_TIER=quick %s -m dst.driver %s" % (PY, i),
               thorough_cmd="VERIF_TIER=thorough %s -m dst.driver %s" % (PY, i),
               evidence_file="evidence/%s.json" % i, technique=t,
               level="exploration", level_note=ASSUME + n) for i, t, n in CHECKS],
  not_applicable=[dict(property=i, reason=r) for i, r in NA],
  notes="No hooks in /repo: all seams (module loading, set order, locks, line events, user functions) are installed from outside by dst/node.py and dst/sim.py. See DESIGN.md.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

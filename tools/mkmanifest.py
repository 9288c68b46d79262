#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ENUM = "exhaustive bounded enumeration of the real code's input space against an independent specification"
LOCK = "explicit-state lockstep model checking: all operation sequences up to a depth on the real code against a reference model"
FAULT = "exhaustive fault-point enumeration (every cut, piece and failure position) on the real code"

CHECKS = {
    "C01": (ENUM, "exploration", "complete: all 2^16 and 2^32 pairs of halves on the real code"),
    "C02": (ENUM, "exploration", "all permutations, boundary words, 0/1 words, single-position changes at every length, all pairs of 1-2 element sets; larger sets by length sweep"),
    "C03": (ENUM, "exploration", "all 8-bit lengths, 16-bit length sweep (all 65536 in thorough), all element values, all sequences of sets in a stream up to a depth"),
    "C04": (FAULT, "fault_enumeration", "every cut position and failure kind for the listed lengths, all piecewise deliveries of small encodings"),
    "C05": (LOCK, "model_checking", "all operation sequences to depth 5 (7 thorough) without merging, wider domains by BFS, pair, subset, order and fill sweeps"),
    "C06": (LOCK, "model_checking", "as C05 over mixed set sizes, every size, every order of sizes"),
    "C07": (LOCK, "model_checking", "complete fill of every id space with comparison at every level, refusals repeated"),
    "D01": (ENUM, "exploration", "quick: all values of every position pair; thorough: all 2^32 names"),
    "D02": (ENUM, "exploration", "all list lengths to 600 and beyond, all small lists, wrong names at every position, all streams of lists up to a depth"),
    "D03": (LOCK, "model_checking", "all sequences of registrations, searches and fetches to depth 4 (6 thorough), BFS over wider names, every fill level"),
    "D04": (FAULT, "fault_enumeration", "every cut position and failure kind, all piecewise deliveries of small encodings"),
    "D05": (ENUM, "exploration", "all spellings of paths over a scratch tree up to 5 (7) components, absolute and relative"),
    "I09": (FAULT, "fault_enumeration", "every value of every byte of 11 small images, every pair of bytes by likely values, all runs removed, repeated, overwritten or moved, all combinations of sections"),
    "D06": (ENUM, "exploration", "all tag lists of up to 3 (4), tag id lists of up to 2 ids and every length, tables, boundary numbers, maps over all subsets of 11 letters, all nodes of small indexes"),
    "I01": (LOCK, "model_checking", "all operation sequences to depth 4 (5 thorough), all subsets and triples of small strings, every code point, size sweeps"),
    "I02": (LOCK, "model_checking", "all operation sequences to depth 5 (6), BFS over two words, all triples of 31 sets, every set size and number of sets"),
    "I03": (LOCK, "model_checking", "all operation sequences to depth 4-6 (5-8) with loading at all points, compared with an index never saved; sweeps of every table size"),
    "I04": (LOCK, "model_checking", "all operation sequences to depth 4-6 (5-8) with optimizing at all points, compared with an index never optimized; image contents enumerated"),
    "I05": (FAULT, "fault_enumeration", "every cut, failing byte, delivery split and marker value of 9 images; every list limit"),
    "I06": (LOCK, "model_checking", "all operation sequences to depth 4 (5), all subsets and pairs over boundary ids, every size, complete tables of 65536 ids"),
    "I07": ("stateless exploration of all thread interleavings up to a preemption bound on the instrumented real code under a controlled scheduler, race detector as monitor", "model_checking", "all pairs of 15 lookups on 3 kinds of index at bound 1 (2), triples at bound 1, node creation by 2-3 goroutines at every list length to bound 3-6 (3 to unbounded)"),
    "I08": (ENUM, "exploration", "every length and all short lists, all sequences of up to 3 (4) of 23 parts in a stream, every cut and failing byte, all node list histories to depth 6 (8)"),
    "O01": (ENUM, "exploration", "all small documents of a grammar: lemmas, grammemes, tag orders, decorations, sections, spellings, defects at every byte and element, against an independent reading of the document"),
    "O02": ("explicit-state exploration of all faults and all process deaths at every file operation of the real code in a simulated file system", "fault_enumeration", "every fault kind and death at every operation of import and save, pairs of faults, from every initial state"),
    "O03": (ENUM, "exploration", "all combinations of local state, status, header form, time relation and connection failure, and sequences of them"),
    "O04": ("explicit-state model checking of the real updater in a simulated file system and network: all faults and deaths at every operation, states of the data directory merged, sequences of faulty runs", "model_checking", "all single faults and deaths at every operation in every state reached by up to 2 (4) runs, each followed by a healthy run"),
    "O05": (LOCK, "model_checking", "all data path shapes of a grammar, all operation sequences to depth 3 (5), every file operation monitored"),
    "O06": ("stateless exploration of all interleavings of file and network operations of several processes running the real code, with partial-order reduction", "model_checking", "all pairs (bounded triples) of processes, all initial states, one process dying at every operation"),
    "O07": (ENUM, "exploration", "all documents of up to 2 elements per section, every number of elements to 130, all lemma lists to 4 (5), tag lists to 4 (6), attribute lists to 2 (3), integer spellings to 4 (6) characters"),
    "O08": ("explicit-state exploration of all faults at every file and network operation of the real code in a simulated file system which accounts for open handles and answers", "fault_enumeration", "every operation from every state of its files and the remote with every fault and pair of faults (updates: every fault), all sequences of two (three) operations with every fault"),
    "X01": (LOCK, "model_checking", "all lines of up to 3 (4) words of an alphabet, all sequences of 3 (4) commands, all spellings of ids around every limit, every index size, all sequences of index replacements and reloads; the console runs as a process"),
    "X02": ("exhaustive enumeration of start states, remote answers, flags, limits and schedules of the real command as a process, outcomes compared with the simulated world", "model_checking", "all reachable states of the data directory x remote answers x force, all flag sequences to 2 (3), every byte limit of file sizes, every descriptor limit, all interleavings of the network steps of two commands with one being killed"),
}

EXTRA = os.path.join(V, "tools", "manifest_extra.json")
if os.path.exists(EXTRA):
    with open(EXTRA) as f:
        for prop, row in json.load(f).items():
            CHECKS[prop] = tuple(row)

with open(os.path.join(V, "properties.jsonl")) as f:
    ids = [json.loads(line)["id"] for line in f if line.strip()]

manifest = {
    "version": 1,
    "setup_cmd": "python3 setup.py",
    "hooks": {"guard": "none: no hooks are added to the repository, checks compile overlays of its current sources",
              "enable": "go build -overlay (see run.py)", "source_commits": []},
    "checks": [
        {
            "property": p,
            "quick_cmd": "python3 run.py %s --tier quick" % p,
            "thorough_cmd": "python3 run.py %s --tier thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": CHECKS[p][0],
            "level": CHECKS[p][1],
            "level_note": CHECKS[p][2],
        }
        for p in ids if p in CHECKS
    ],
    "not_applicable": [{"property": p, "reason": "check not built yet"} for p in ids if p not in CHECKS],
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")

#!/usr/bin/env python3
"""Writes MANIFEST.json: the checks which exist are those registered in the harness."""
import json, os, glob, re
here = os.path.dirname(os.path.abspath(__file__))
T = {
 "C01": ("exploration", "differential monitor: live tree vs. tree rebuilt from the tape vs. reopened tree after every call of seeded histories", "seeded histories over hostile names and configurations; each call is followed by an entry-by-entry comparison"),
 "C02": ("exploration", "online model-based monitor: reference hierarchical file system run in lockstep", "outcome class, handle results and the whole tree are compared after each call of seeded histories"),
 "C03": ("exploration", "round-trip oracle over the full matrix of pipeline configurations", "every supported combination is run with boundary-size contents; read-back, restore and fetch are compared with what was written"),
 "C04": ("exploration", "offline checker of index rows against an independent scan of the tape", "rows, fetches and queries are compared with the scan after each call"),
 "C05": ("exploration", "trace monitor on the bytes of the drive plus independent tar readers", "prefix, alignment and well-formedness are judged after each call; four tar readers"),
 "C06": ("fault_enumeration", "crash-point enumeration (cut at every byte) with a recovery oracle", "every cut position of the recorded tapes is rebuilt and compared with the state after the last complete record"),
 "C07": ("fault_enumeration", "replay enumeration over the index of every record prefix with a convergence oracle", "every record prefix of each recorded tape is used as the existing index"),
 "C08": ("fault_enumeration", "tamper enumeration and structured forgery with an acceptance monitor on the callbacks of the indexer", "accepted headers and restored contents are compared with the set of what was signed"),
 "C09": ("exploration", "information-flow monitor: marker search over the raw and decoded bytes of the drive, plus wrong-key runs", "markers in every attribute; raw, base64, hex and decompressed views of the tape are searched"),
 "C10": ("fault_enumeration", "fault injection at every seam operation with a goroutine-state hang detector and probe calls", "every operation on drive, index, cache and source of each scenario fails once; the next call has to complete"),
 "C11": ("exploration", "race detector plus linearizability checking of recorded histories under injected delays", "many short concurrent histories, own linearizability search against the reference file system, rebuild equality"),
 "C12": ("exploration", "exhaustive small trees over hostile names with a set-difference oracle", "all pairs of hostile names x tree shapes x operations, also after a rebuild"),
 "C13": ("exploration", "structural invariant monitor: listings vs. lookups vs. live rows", "all directories, all counts, all entries after each call of seeded histories, including links"),
 "C14": ("exploration", "online model-based monitor: byte array with a cursor run in lockstep", "seeded call sequences on handles for all flag combinations and caches"),
 "C15": ("exploration", "state-hash monitor on drive and index plus a writable twin", "every call of every method on several compositions of read-only instances"),
 "C16": ("fault_enumeration", "enumeration of (tail state x index state) with a non-destruction and faithfulness oracle", "tails cut at every byte of the last calls, indexes absent, current, stale and ahead"),
 "C17": ("exploration", "differential monitor against independent tar writers and readers", "archives by archive/tar, python and GNU tar in three formats and all root styles"),
 "C18": ("exploration", "cross-key oracle over generated keys", "all formats x hostile passwords; both halves, wrong passwords and foreign pairs"),
}
built = set()
for f in glob.glob(os.path.join(here, "harness", "prop_*.go")):
    built |= set(re.findall(r'ID:\s*"(C\d\d)"', open(f).read()))
checks, na = [], []
for p in sorted(T):
    lvl, tech, note = T[p]
    if p in built:
        checks.append({"property": p, "quick_cmd": f"./run.sh {p} quick", "thorough_cmd": f"./run.sh {p} thorough", "evidence_file": f"evidence/{p}.json",
                       "technique": "runtime monitoring: " + tech, "level": lvl, "level_note": note})
    else:
        na.append({"property": p, "reason": "the monitor for this property has not been built yet"})
m = {"version": 1, "setup_cmd": "./run.sh build", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")

#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PBT = "property-based testing (rapid): "
N = {
 "C01": ("generated databases, indices and retrieval histories against the stored records", ""),
 "C02": ("generated record lists against the stored records", ""),
 "C03": ("fault injection into generated retrievals, oracle: true record or error", "the randomness of honest queries is generated too; forging needs a hash collision or the guess of a share, which generated attacks that are told the shares of the cheating servers cannot make"),
 "C04": ("metamorphic relation between executions with different indices under one generated fault", "schemes whose verdict is random are compared by their acceptance rate"),
 "C05": ("statistical tests over generated query sets plus algebraic invariants on every generated query", "distributions are compared by moments and pairwise correlations; a leak that needs more than a few thousand queries to see is not found"),
 "C06": ("statistical tests over generated queries plus invariants on every generated key pair", "as C05"),
 "C07": ("generated points, payloads and evaluation orders against the point function", ""),
 "C08": ("generated key databases and predicates against a plaintext count", ""),
 "C09": ("generated key databases and predicates against a plaintext average", ""),
 "C10": ("fault injection into generated predicate queries, oracle: true value or error", "probability of a lucky forgery per case below 2^-29"),
 "C11": ("generated bit databases over all groups against the stored bits", ""),
 "C12": ("generated bit matrices and extreme randomness against the stored bits", ""),
 "C13": ("fault injection into generated single-server retrievals, oracle: committed bit or error", "probability of a lucky forgery is bounded per attack and confirmed by repetition"),
 "C14": ("statistical tests over generated queries", "as C05"),
 "C15": ("generated words and corruptions against a majority reference, generated databases against the stored bits", ""),
 "C16": ("differential testing against math/big arithmetic on generated matrices", ""),
 "C17": ("round trips over generated values, in both directions", ""),
 "C18": ("generated record lists and alterations of proofs", ""),
 "C19": ("generated randomness and read sequences against a reference, plus statistical tests", ""),
 "C20": ("generated parameters, good and bad, run in a separate process", "a refusal is an error, a panic or an exit without query bytes"),
 "C21": ("fuzzing with random, mutated and structured bytes, then comparison of honest answers", "out-of-bounds access inside C code is seen only when it faults or changes an answer"),
 "C22": ("generated key-dump files against a reference that reads the same packets", ""),
 "C23": ("generated key sets against a plaintext directory", ""),
 "C24": ("generated key sets, requests and concurrent clients against the real programs", "few cases, because each starts programs"),
 "C25": ("generated disagreements among simulated servers for the real client", ""),
 "C26": ("generated configurations and simulated servers that record what they receive", ""),
 "C27": ("generated sizes and shapes against arithmetic definitions", ""),
 "C28": ("generated key files through the real program", ""),
 "C29": ("fuzzing the real web front end with generated malformed requests, honest ones in between against their known results", "few front ends, because each needs four servers"),
 "C30": ("generated sets of pending and concurrent queries on real servers that are stopped, oracle: the answers given before", "few servers, because each is a process"),
 "C31": ("generated impostors and generated changes of recorded connections against the real clients", "authentication rests on Go's TLS library, which is taken as correct"),
}
checks, na = [], []
for l in open(os.path.join(here, "properties.jsonl")):
    if not l.strip():
        continue
    p = json.loads(l)
    i = p["id"]
    d = os.path.join(here, "harness", i.lower())
    if not os.path.isdir(d) or not any(f.endswith("_test.go") for f in os.listdir(d)):
        na.append({"property": i, "reason": "The family applies; the check is not built yet."})
        continue
    t, note = N[i]
    checks.append({
        "property": i,
        "quick_cmd": f"bash check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
        "technique": PBT + t,
        "level": "exploration",
        "level_note": "Holds on every generated case of the run; the counts and samples are in the evidence file. Trusts the oracle and generators under harness/, the Go toolchain and the cached libraries." + (" " + note[0].upper() + note[1:] + "." if note else ""),
    })
m = {"version": 1,
     "setup_cmd": "bash setup.sh",
     "checks": checks, "not_applicable": na,
     "notes": "Every check is one Go test binary built from harness/ against /repo's working tree by check.sh; no hooks in /repo. check.sh ID --replay FILE runs a replay file."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")

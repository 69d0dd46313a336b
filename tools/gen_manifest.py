#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. One entry per property of properties.jsonl."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {  # id: (technique, what the level rests on)
 "C01": ("runtime monitor: encode/decode round trip over generated Go types", "Type shapes are generated by reflection with every tag option, values from edge pools. Trusts reflect.DeepEqual modulo nil/empty slices."),
 "C02": ("runtime monitor: byte-for-byte comparison with a reference encoder, shared and pre-filled output buffers", "The reference encoder is written from beserial/doc.go and shares no code with it."),
 "C03": ("runtime monitor: Size against length of Marshal output", "Generated types and values, every wire type, unencodable values."),
 "C04": ("runtime monitor: hostile decode workload with panic, allocation and consumed-count monitors against a reference decoder", "Allocation bound is checked with runtime/metrics against a factor of the input length."),
 "C05": ("runtime monitor: fault-injected values and arguments, error and panic monitors", "Every position of an unencodable component within generated shapes."),
 "C06": ("runtime monitor: instrumented custom-encoding types recording every call of the codec", "The recording types fail on demand and count calls."),
 "C07": ("runtime monitor: buffer poisoning after decode, dirty decode targets", "Poisoning detects any alias, comparison with a fresh decode detects dependence on the target."),
 "W01": ("runtime monitor: wire objects against a reference protocol encoder and round trip", "The reference encoder is written from the protocol layout, independent of beserial."),
 "W02": ("runtime monitor: mutated encodings, re-encoding compared with the consumed bytes", "Mutations of valid encodings and byte flips at every offset of small ones."),
 "W03": ("runtime monitor: fuzzed wire bytes with panic, time and allocation monitors", "Random, mutated, truncated and length-inflated input for every identifier and type."),
 "W04": ("runtime monitor: message framing round trip, trailing and truncation faults", "All known message kinds, sampled unknown identifiers."),
 "W05": ("runtime monitor: interlinks against a reference expansion", "All lengths 0 to 255, sampled repeat patterns, both encode and decode."),
 "W06": ("runtime monitor: signer addresses against a reference Merkle fold", "All path lengths 0 to 255, bit flips of every component."),
 "W07": ("runtime monitor: compact targets against big-integer arithmetic", "All byte-length and top-bit boundaries, random targets and difficulties."),
 "W08": ("runtime monitor: signature verification over single-field and single-bit changes", "Trusts crypto/ed25519 as the reference verifier."),
 "W09": ("runtime monitor: cross-comparison of all transaction views, mutation monitor", "Views are compared with the generated field values."),
 "W10": ("runtime monitor: fault-injected wire objects, encode-or-refuse with decode-back comparison", "Places and kinds of contradiction are found by reflection over the object; comparison knows equal notations of one IP address."),
 "A01": ("runtime monitor: address text against a reference IBAN encoder", "Reference in big-integer arithmetic; spaces inserted everywhere."),
 "A02": ("runtime monitor: mistyped and malformed strings against a reference acceptance predicate", "Single substitutions and swaps of an address are enumerated in full for each sampled address."),
 "P01": ("runtime monitor: rewards against a big-integer emission schedule, fresh processes per query order", "Independent sequential recomputation; order-independence observed in child processes with cold caches."),
 "P02": ("runtime monitor: monotonicity and telescoping checks over recorded reward logs", "Contiguous ranges around every structural boundary of the schedule plus random ranges."),
 "P03": ("Go race detector on concurrent reward queries in cold processes, answers checked against a sequential run", "Covers the interleavings that occurred with injected yields, not all."),
 "T01": ("runtime monitor: model-based operation histories against a map", "Keys are clustered to force splits and merges at every depth; update reports are observed on an instrumented store."),
 "T02": ("runtime monitor: root hash against a from-scratch reference tree after every operation", "Reference tree builder and hash are independent of the tree package."),
 "T03": ("runtime monitor: online invariant checker over the raw stored nodes after every operation", "Walks the store itself, not the tree's own iteration."),
 "T04": ("runtime monitor: overlay histories with snapshots of the lower store", "Direct and tree-mediated operations, nested overlays, flush and drop."),
 "T05": ("runtime monitor: tree on copying, serialising and recording stores, compared with the in-memory store", "The store hands out and keeps private copies, so any reliance on shared memory shows."),
 "T06": ("runtime monitor: nibble functions against a digit-list reference", "All path lengths, all prefix lengths, odd and even."),
 "S01": ("runtime monitor: conservation checker over stored balances after every block", "Sums the raw store with big integers before and after each block of generated histories."),
 "S02": ("runtime monitor: fault injection into blocks, full state snapshot comparison", "Blocks are broken at every stage of processing; the next valid block must apply."),
 "S03": ("runtime monitor: lockstep with a reference state machine over generated histories", "The reference ledger is written from the protocol rules, independent of accounts and wire logic."),
 "S04": ("runtime monitor: vesting withdrawals at schedule boundaries against a big-integer schedule", "Heights, amounts and proofs around every step boundary."),
 "S05": ("runtime monitor: HTLC resolutions against a reference rule set", "All resolution paths, parties, depths, algorithms, timeouts and amounts around the limits."),
 "S06": ("runtime monitor: enumeration of declared against actual account types under Push", "All 256 declared types for sender, recipient and created contract in rotation."),
 "S07": ("runtime monitor: prune list faults against a reference pruning rule", "Missing, altered, padded, duplicated and permuted lists."),
 "S08": ("runtime monitor: adversarial decoded blocks with panic monitor and follow-up blocks", "Blocks pass through the wire codec before they are applied."),
 "S09": ("runtime monitor: contract terms tracked from creation data through whole histories", "Terms are parsed from creation data by the reference, compared after every block."),
 "S10": ("runtime monitor: balance arithmetic against big integers over the whole 64-bit range, mutation monitor", "Edge pools around 0, balance and 2^64."),
 "S11": ("runtime monitor: lookup histories with poisoning of returned and stored objects", "Every returned object is overwritten and the state re-read."),
 "S12": ("runtime monitor: snapshot comparison around reverts", "Known finding: revert is not implemented; a refused revert must leave the state alone, an implemented one must restore it."),
 "S13": ("runtime monitor: forged, foreign and transplanted signatures under Push", "Known findings: no signature is verified; authorisation by named keys is checked."),
 "S14": ("runtime monitor: deep comparison of blocks across applications, shared and scribbled block objects", "Histories of generated chains; the same object on two states."),
 "S15": ("runtime monitor: typed errors of refused blocks and debits against the reference ledger's account of the refusal", "Blocks with one fault each; the kind of error is only demanded where a single fault decides it."),
 "S16": ("runtime monitor: fault-injecting stores that fail at a chosen access, rollback, retry in lockstep with the reference ledger", "Crash points are sampled per block, with the first and last accesses and all stages favoured."),
 "W11": ("runtime monitor: account queries and equality against field-wise comparison", "Single-bit differences are exhaustive per field at its ends and sampled between."),
 "L01": ("runtime monitor: wallet signatures verified independently, invalidated by every content change", "Trusts crypto/ed25519."),
 "L02": ("runtime monitor: wallet identity against independent key derivation, foreign senders", "Every single-bit difference of the sender key for sampled seeds."),
 "G01": ("runtime monitor: generated profiles opened and compared with their source values", "Profiles are written by the harness, independent of the loader; built-in profiles are compared with their embedded files."),
 "G02": ("runtime monitor: fault injection into profile files", "Every kind of damage at sampled (small files: all) offsets."),
 "E01": ("runtime monitor: the built replay tool run on generated intact and damaged exports", "Expected verdicts from the reference ledger; the tool runs as a process of its own."),
 "R01": ("Go race detector and result comparison on concurrent read-only workloads", "Covers the interleavings that occurred with injected yields and start barriers, not all."),
 "R02": ("Go race detector and result comparison on concurrently used independent instances", "Covers the interleavings that occurred, not all."),
}
checks = []
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
assert set(ids) == set(T), set(ids) ^ set(T)
for i in ids:
    tech, note = T[i]
    checks.append({"property": i,
        "quick_cmd": "python3 check.py %s --tier quick" % i,
        "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": tech, "level": "exploration",
        "level_note": "Sampled executions of the real code, judged by an oracle. " + note})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": [],
     "notes": "No hooks are needed: the monitors observe the public interfaces of the packages, instrumented stores and custom-encoding types, the race detector, and the built tool. Harness: /verif/harness, driver: /verif/check.py, known findings: /verif/known_findings.txt."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
print(len(checks), "checks")

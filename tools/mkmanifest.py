#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl")) if l.strip()]
TECH = {
    "C01": "proptest: keys/blocks/call histories against independent ciphers, accelerated and portable builds",
    "C02": "proptest: messages x write splits against independent hashes, messages past 2^32 bits",
    "C03": "proptest: bit strings, widths, rounds, rates, output lengths against a bit-level Keccak",
    "C04": "model-based operation histories over all hash and MAC objects against a fresh-message model",
    "C05": "proptest: key lengths x messages x splits x primitives (user-supplied ones too) against independent HMAC/CMAC",
    "C06": "proptest: mode x cipher x padding x segment x IV/counter x message against independent SP 800-38A modes",
    "C07": "model-based stream histories (chunkings, draw-offs, finish/reset/reuse) against independent modes",
    "C08": "generated ciphertexts of every padding shape, corruptions and parameters against an accept-iff-well-formed oracle",
    "C09": "proptest: keys, IVs, splits, reset/clone histories against an independent ZUC/EEA3/EIA3",
    "C10": "proptest: key generation from seeded and crafted random sources, residues, imports; oracle recomputed from (n,e,d)",
    "C11": "proptest: messages/labels/hashes/keys, plus mutated encoded blocks, against an independent RFC 8017 codec",
    "C12": "proptest: signatures, plus mutated encoded blocks signed with the key, against an independent RFC 8017 verifier",
    "C13": "proptest: generated domain parameters, signatures and crafted components against the FIPS 186-4 equation",
    "C14": "proptest: structured points and scalars against the affine group law on an independent bignum",
    "C15": "proptest: keys, signatures and crafted components against the FIPS 186-4 equation on an independent curve",
    "C16": "proptest: valid, shifted, perturbed and foreign points against the curve equation",
    "C17": "fuzzing of every fallible entry point with arbitrary arguments and call histories; oracle: returns, and object equals a fresh one",
    "C18": "recording, constant and failing random sources; oracle on repeats, used bytes, counter blocks and reported failures",
    "C19": "proptest: numbers, encodings and configurations put into keys, signatures and scheme objects, read back through every accessor, clone and print",
}
have, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(root, "checks/src/bin/%s.rs" % i.lower())):
        have.append({"property": i, "quick_cmd": "./run.sh %s" % i, "thorough_cmd": "VERIF_TIER=thorough ./run.sh %s" % i,
                     "evidence_file": "evidence/%s.json" % i, "technique": TECH[i], "level": "exploration",
                     "level_note": "generated-input search: decides the cases it generates, gives no proof for the rest; domain and bounds in DESIGN.md"})
    else:
        na.append({"property": i, "reason": "check not built yet"})
doc = {"version": 1, "setup_cmd": "./setup.sh", "checks": have, "not_applicable": na,
       "notes": "Every check is generated-input search against an independent reference; see DESIGN.md. VERIF_SEED picks the cases, VERIF_TIER the amount."}
json.dump(doc, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(have), "checks", len(na), "open")

#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
W = "random call histories against a sequence model, online monitor (debug, narrow-node and release builds)"
T = {
 "C01": W, "C02": W, "C03": W, "C05": W, "C06": W, "C07": W,
 "C04": "snapshot monitor over all coexisting versions after every call of random histories",
 "C08": "order, permutation, comparison-count and stack monitors over sorts of adversarial patterns and an adaptive adversary",
 "C09": "pairing, order and stack monitors over dual sorts of adversarial patterns and an adaptive adversary",
 "C10": "exact-answer monitor over ordered searches with all bound kinds",
 "C11": "hooked tree walk checking every documented invariant and the height after each call of random histories and throughout long repetitive ones",
 "C12": "element life-cycle monitor (exactly-once drop) and heap balance over random histories",
 "C13": "AddressSanitizer, MemorySanitizer and Miri (Stacked and Tree Borrows) over random histories",
 "C14": "ThreadSanitizer (instrumented std) and Miri race detection plus per-thread sequence monitors",
 "C15": "panic injection at every point user code is called, with life-cycle and content monitors",
 "C16": "comparison monitor of equality, order, hash and collection against plain vectors",
 "C18": "counts of executed code regions (compiler coverage counters) per call against bounds in width, height and length",
 "C19": "live-heap monitor during long repetitive histories, against a newly built vector of the same length",
 "C17": "clone-count and allocation monitor around clones and edits against logarithmic bounds",
}
SHARED = "Runtime monitoring of sampled executions: no violation in what ran (counts in the evidence), not a proof. Trusts rustc, the allocator counters and the harness's plain-sequence model."
N = {
 "C11": " Needs the read-only hook in /repo; without it only depths are observed. The height bound is the base-(width/2) logarithm of the greatest length so far, plus slack.",
 "C13": " Miri runs the build with nodes of 8 instead of 64 slots; sanitizers also run full width. Two known findings are listed in KNOWN_FINDINGS.txt.",
 "C14": " Schedules are those the OS, ThreadSanitizer and Miri's seeded scheduler produce. The Rc focus finding is listed under C13.",
 "C15": " Elements may be leaked after a panic, never released twice. Panics in Drop are injected one at a time.",
 "C19": " The bound is four times a new vector plus some 150 nodes per level, two to four times what was seen, so a vector of a few thousand elements has to waste several times its size to be noticed.",
 "C17": " Counts clones and bytes; C18 counts work.",
 "C18": " The bounds are about five times what calls were seen to take, so a smaller slow-down is not a violation; code of the standard library (moving memory, allocating) is not counted.",
 "C08": " Comparison counts are held to a bound of n log n with a constant (a quadratic one where the keys are made up against the pivots); time is judged only by a processor-time limit far above any run.",
}
m = {
 "version": 1,
 "setup_cmd": "python3 check --setup",
 "hooks": {"guard": "librrb_verif and librrb_verif_narrow (rustc --cfg)", "enable": "RUSTFLAGS='--cfg librrb_verif' adds the read-only module verif_hooks; '--cfg librrb_verif_narrow' builds nodes of 8 slots", "source_commits": ["bcb725a65bbb666908882e05efb5f9e81639bd67"]},
 "checks": [{"property": p, "quick_cmd": "python3 check %s quick" % p, "thorough_cmd": "python3 check %s thorough" % p, "technique": T[p], "level": "exploration", "level_note": SHARED + N.get(p, "")} for p in sorted(T)],
 "not_applicable": [],
 "notes": "Known findings and repairs: KNOWN_FINDINGS.txt. Replay a violation with: python3 check --replay FILE.",
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")

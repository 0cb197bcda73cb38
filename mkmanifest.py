#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
T = {
 "C01": "stateful model-based property testing (enumerated small forests + random histories), invariant over all links after every call",
 "C02": "stateful model-based property testing against a reference forest; every move on every small forest enumerated",
 "C03": "stateful model-based property testing: accept/refuse oracle from the reference model, state compared before and after",
 "C04": "stateful model-based property testing of detach and detach_single against a reference forest",
 "C05": "stateful model-based property testing of every removal form; hook log compared with the model's postorder",
 "C06": "fault injection at every hook call inside model-based histories, state compared with the model after the panic",
 "C07": "stateful property testing with removed, leaked and never-issued IDs passed to every entry point",
 "C08": "stateful property testing with counted payloads (ledger of live values) and per-accessor value comparison",
 "C09": "generated interleavings of front/back/peek/clone/nth programs compared with the reference event sequence",
 "C10": "generated interleavings and depth limits compared with the reference event sequence filtered by depth",
 "C11": "generated traversals compared with the reference level order; differential between both variants; counting allocator",
 "C12": "generated interleavings compared with reference lists of ancestors, children and siblings",
 "C13": "stateful model-based property testing of subtree copies with mapping, value and independence oracles",
 "C14": "stateful model-based property testing over several forests and trees; untouched parts compared after every call",
 "C15": "generated builder sessions (with edits in between) compared with the reference forest step by step",
 "C16": "differential testing of one history over seven ID types; generated histories around ID exhaustion; ID law checks",
 "C17": "generated trees and piecewise texts; printing compared with a compositional reference renderer",
 "C18": "generated valid and misusing call sequences; panic payloads classified against the model's preconditions",
 "C19": "generated large and degenerate shapes; counted node accesses against stated bounds on a small stack",
 "C20": "metamorphic testing: the same history by forest, proxy and alternative routes must have equal results",
 "C22": "differential testing of one history in one thread and in several: generated schedules with preemption at any node access (every single preemption enumerated on small forests), handovers, shared reading",
 "C23": "generated histories and repeated calls under a counting allocator: bounds on live and peak bytes, differential between data of two sizes, balance after drop",
 "C21": "differential testing of digests of the same generated histories across four builds (std/no-std, debug/release)",
}
NOTE = ("Generated-input search, no proof: all cases up to the enumerated bounds are covered completely, larger ones by "
        "random sampling. Trusts the reference model and the harness, and that the panic hook, allocator and step "
        "counter observe what they should. Deterministic for a given VERIF_SEED.")
N = {
 "C11": " The no-allocation part counts calls of the global allocator during the traversal.",
 "C19": " Cost is counted in node accesses through the step-counter hook, stack by running in a 192 KiB thread; time is not measured.",
 "C16": " The 2^32 and 2^64 limits cannot be reached; overflow is exercised at 8 and 16 bits.",
 "C17": " Connector strings are taken from the crate's own output on calibration trees, not from a fixed table.",
 "C21": " The no-std build is the crate without the feature on the host target; no bare-metal target is installed.",
}
N["C22"] = " Preemption happens at node accesses and in user callbacks; other points are only met by freely running threads, which a case does not determine."
N["C23"] = " Memory is counted in bytes requested from the global allocator by the thread; fragmentation is not seen."
checks = []
for p in sorted(T):
    checks.append({
        "property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "python3 check.py %s --thorough" % p,
        "evidence_file": "evidence/%s.json" % p, "technique": T[p], "level": "exploration", "level_note": NOTE + N.get(p, ""),
    })
m = {
 "version": 1,
 "setup_cmd": "python3 check.py --setup",
 "hooks": {"guard": "cfg treena_verif", "enable": "RUSTFLAGS=\"--cfg treena_verif\" (set by check.py for every build)",
           "source_commits": ["1c8581ae752f95c8861d6721fe039e98b822c539",
                              "7fe204465a5bc4c6878c1d308337bf5e4d7c0c47"]},
 "checks": checks, "not_applicable": [],
 "notes": "Replay: python3 check.py --replay out/<file>.case. See DESIGN.md.",
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)

#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, os
ROOT = os.path.dirname(os.path.abspath(__file__))
# What was added to the machinery because an earlier version of it missed the bug.
ADDED = {
    "C17-deep-columns": "printing of huge shapes",
    "C17-lost-error": "destinations and texts that fail",
    "C16-debug-text": "texts of IDs compared",
    "C19-arena-scan": "bound on the processor time",
    "C19-scan-remove": "bound on the processor time, 2000 small operations beside a huge tree",
    "C03-deep-bound": "`BIG` shapes in histories",
    "C06-mark-after-hook": "`probe()`: removed nodes as operands after a panic",
    "C08-needs-drop": "`types.rs`: replay with 18 data types",
    "C14-clone-from": "`clone_from` into a larger forest",
    "C14-nested-copy": "`side.rs`: callbacks that use another forest",
    "C14-nested-print": "`side.rs`",
    "C14-nested-removal": "`side.rs`",
    "C15-late-link": "nested builders whose closure panics",
    "C14-shared-memo": "twin histories, interference test in a fresh process",
    "C16-ord-narrow": "`ids_far`: IDs of 70 000 nodes",
    "C17-crlf": "CR, tab, look-alike texts; only spaces are trimmed",
    "C18-limit-overflow": "limits next to usize::MAX",
    "C19-recursive-copy": "costs 16-19: copies, hooks, builders on deep trees",
    "C09-back-from-inner": "`whole()`, `jump()`: adaptors and overridable methods",
    "C12-last-override": "`whole()`: `last`, `rev().last`",
    "C12-sibling-fold": "`whole()`: `fold`, `rfold`",
    "C11-deep-level": "deep shapes",
    "C16-24bit": "`ids_many`: 2^24 nodes of one forest",
    "C22-print-busy": "six threads with the same question",
    "C22-thread-memo": "handovers of a forest that stays in place; what one thread did, another undoes, and the first repeats",
    "C18-hint-after-end": "`exer.rs`: every iterator method before, within and after the end",
}
p = os.path.join(ROOT, "DESIGN.md")
t = open(p).read()
mark = "| bug | manifests | added |\n|---|---|---|\n"
head = t[: t.index(mark)] + mark
rows = []
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    assert d.startswith(m["property"]), d
    rows.append("| %s | %s | %s |\n" % (d, m["needs"].replace("|", "/"), ADDED.get(d, "")))
open(p, "w").write(head + "".join(rows))

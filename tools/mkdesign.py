#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# what was added to the simulator where a change was not caught at first
MISSED = {
    "C01-hint": "endless sources whose size hint says so added",
    "C24-ahead-rec": "cursors that skip far ahead in front of what is parsed added",
    "C16-box-chain":"generic boxed types two levels deep were missing from the zoo",
    "C16-enum-single":"no enum with one variant in the zoo",
    "C07-bytes-set":"byte sets out of order and longer than eight added",
    "C07-bytes-dot":"tags cut off at the end of a byte input, with peek, added",
    "C01-try-fold":"searching and exhausting iterator methods added to bufsim",
    "C17-table":"nested sessions on the same thread inside the source added",
    "C17-depth":"storms of torn-down parses added",
    "C18-attempt-end":"retries on the same cursor added",
    "C14-list-max":"lists with many different maxima added",
    "C15-list-ignore":"plain list functions with possibly empty ignored parts added",
    "C11-prefix-dedup":"variants that repeat the enum's prefix added",
    "C10-tuple-eleven":"wide structs added",
    "C11-deep-retry":"large offsets and long failing variants added",
    "C14-top-context":"demand of the entry points themselves measured",
    "C10-absent-prefix":"optional prefixes that consume nothing added",
}
rows = []
for d in sorted(os.listdir(HERE + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (HERE, d)))
    rows.append("| %s | %s | %s | %s | %s |" % (d, m["property"], m["needs"], m["what_it_breaks"], "yes, after: " + MISSED[d] if d in MISSED else "yes"))
p = HERE + "/DESIGN.md"
s = open(p).read()
a = s.index("|---|---|---|---|---|\n", s.index("## Planted bugs")) + len("|---|---|---|---|---|\n")
b = s.index("\n\n", a)
open(p, "w").write(s[:a] + "\n".join(rows) + s[b:])

#!/usr/bin/env python3
"""spec/SpaceGroupTable.tla from data/spacegroups.tsv"""
import json
rows = [l.rstrip("\n").split("\t") for l in open("/verif/data/spacegroups.tsv")]
q = lambda s: json.dumps(s)
out = ["-------------------------- MODULE SpaceGroupTable --------------------------",
       "(* The 530 tabulated settings of the space groups (generated by tools/mktable.py from data/spacegroups.tsv). *)",
       "SG(n, sch, hall, chars, name, first, full, short, choice, L, pg) == [number |-> n, schoenflies |-> sch, hall |-> hall, chars |-> chars, international |-> name, first |-> first, full |-> full, short |-> short, choice |-> choice, centring |-> L, class |-> pg]",
       "Table == <<"]
body = []
for i, n, sch, hall, name, full, short, choice, L, pg, hn in rows:
    assert i == hn
    body.append(f"  SG({n}, {q(sch)}, {q(hall)}, <<{', '.join(q(c) for c in hall)}>>, {q(name)}, {q(full[0])}, {q(full)}, {q(short)}, {q(choice)}, {q(L)}, {pg})")
out.append(",\n".join(body) + " >>")
out.append("=" * 77)
open("/verif/spec/SpaceGroupTable.tla", "w").write("\n".join(out) + "\n")

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the table stays readable)."""
import json, os
S = "yamux/src/"
CONN, STREAM, FC, IO, HDR, FRM, RTT, CLO, CLE, LIB, CHK, TAG, ERR = [S + x for x in (
    "connection.rs", "connection/stream.rs", "connection/stream/flow_control.rs", "frame/io.rs",
    "frame/header.rs", "frame.rs", "connection/rtt.rs", "connection/closing.rs",
    "connection/cleanup.rs", "lib.rs", "chunks.rs", "tagged_stream.rs", "error.rs")]
P = []
def p(id, title, st, over, q, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=q),
        why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None)))
exec(open(os.path.join(os.path.dirname(__file__), "properties_table.py")).read())
ids = [x["id"] for x in P]
assert len(ids) == len(set(ids))
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")

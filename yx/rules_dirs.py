"""The two directions of a stream work independently of each other."""
from .view import *
from .prog import opname
from .term import *
from .rules_panic import le
from .rules_stream import names, rets, ROLES, stream_traces, early_exit, empty_target, split_of

QUEUE_OPS = {"poll_ready", "start_send", "poll_flush", "is_closed", "clone", "drop", "fmt", "same_receiver", "is_connected_to", "try_send"}


def queue_calls(tr, what):
    """calls on a command queue's sending or receiving half"""
    return [(i, e) for i, e in enumerate(tr.ev) if e[0] == "call" and what in (e[6] or "")]


def c40(P, R):
    arg = lenof(mk("der", mk("sym", ("arg", 3))))
    for n, tr in stream_traces(P, STREAM_ENTRIES + STREAM_QUERIES):
        # nothing but dropping the handle ends its queue
        for i, e in queue_calls(tr, "mpsc::Sender<"):
            R.ob(opname(e) in QUEUE_OPS, "C40.queue-kept", "a call on a stream uses %s on its queue to the connection, which may end it" % opname(e), tr, e[7])
        for i, root, path, old, new, site in tr.writes(P.el("Stream.sender")):
            if path[-1] is P.el("Stream.sender"):
                R.ob(tr.same(old, new), "C40.queue-kept", "a stream's queue to the connection is replaced", tr, site)
        if tr.kind != "return" or n not in ROLES:
            continue
        r = rets(tr, *ROLES[n])
        qr = queue_ready(tr)
        gone = any(("Ready", "Err") in x[2] for x in qr) or any(c.ok is not True for c in cmds(tr))
        secs = shared_secs(tr)
        if n == "S.write":
            for sh, pay in r.items():
                if sh == ("Pending",):
                    ok = any(("Pending",) in x[2] for x in qr) or any(tr.proves(eqz(a.sw)) for s, a, b in secs)
                    R.ob(ok, "C40.write-waits", "a write waits although the queue has room and credit is left", tr, tr.t.site)
                elif sh == ("Ready", "Err"):
                    ok = gone or any(can_write(tr, a.state) is False for s, a, b in secs)
                    R.ob(ok, "C40.write-fails", "a write fails although the sending direction is open and the connection is there", tr, tr.t.site)
                else:
                    hy = [le(I(1), arg), le(I(1), split_of(P, tr))]
                    ok = tr.le(I(1), pay, hy)
                    R.ob(ok, "C40.write-something", "a write may take nothing of a non-empty buffer although credit is left", tr, tr.t.site)
        elif n in ("S.read", "S.next"):
            if early_exit(tr):
                continue
            empty = any(tr.proves(eqz(lenof(v.seq))) for s, a, b in secs for v in (a, b) if v is not None)
            if n == "S.read":
                empty = empty or empty_target(tr, ("D", mk("sym", ("arg", 3))))
            for sh, pay in r.items():
                if sh[-1] == "Err":
                    R.ob(gone, "C40.read-fails", "a read fails although the connection is there", tr, tr.t.site)
                elif sh == ("Pending",) or sh == ("Ready", "None"):
                    R.ob(empty, "C40.read-not-blocked", "a read returns nothing although data may be buffered", tr, tr.t.site)
        elif n == "S.close":
            if ("Ready", "Err") in r:
                R.ob(gone, "C40.close-fails", "closing fails although the connection is there", tr, tr.t.site)
    # the connection ends a stream's queue only when it goes down itself
    for n in CONN_ENTRIES + ("TS.next",):
        for tr in P.run(n):
            for i, e in queue_calls(tr, "mpsc::Receiver<"):
                if opname(e) == "close":
                    R.ob(False, "C40.queue-kept", "the connection ends a stream's queue although it goes on", tr, e[7])
    for r in ("queue-kept", "write-waits", "write-fails", "write-something", "read-fails", "read-not-blocked"):
        R.floor("C40." + r, 1)

"""Views shared by the rules: frames, stream commands, critical sections of a stream."""
from .term import *
from . import term as TM
from .prog import *
from .models import FRONT, BACK, MUT_E, EMPTYMAP, mapget

KIB256 = 256 * 1024
SYN, ACK, FIN, RST = 1, 2, 4, 8
STREAM_ENTRIES = ("S.read", "S.next", "S.write", "S.flush", "S.close")
STREAM_QUERIES = ("S.is_closed", "S.is_write_closed", "S.is_pending_ack", "S.id")
CONN_ENTRIES = ("C.next", "C.out", "C.close", "C.drop")


class FV(object):
    """fields of a frame value"""

    def __init__(self, P, f):
        g = P.get
        h = g(f, "Frame.header")
        self.f, self.header = f, h
        self.version = g(h, "Header.version", "Version.0")
        self.tag = g(h, "Header.tag")
        self.flags = g(h, "Header.flags", "Flags.0")
        self.sid = g(h, "Header.stream_id")
        self.id = g(self.sid, "StreamId.0")
        self.length = g(h, "Header.length", "Len.0")
        self.body = g(f, "Frame.body")


class Cmd(object):
    """a command queued by a stream"""

    def __init__(self, tr, i, v, ret, site):
        P = tr.P
        self.tr, self.i, self.v, self.ret, self.site = tr, i, v, ret, site
        vs = tr.variants(v, "StreamCommand")
        self.kind = list(vs)[0] if len(vs) == 1 else None
        self.frame = FV(P, P.get(v, "StreamCommand.SendFrame.0")) if self.kind == "SendFrame" else None
        self.ack = P.get(v, "StreamCommand.CloseStream.ack") if self.kind == "CloseStream" else None
        rs = tr.variants(ret, "Result")
        self.ok = True if rs == {"Ok"} else False if rs == {"Err"} else None

    def flagbits(self):
        """the flag value this command puts on the wire, as an int, or None"""
        if self.kind == "SendFrame":
            return self.tr.val(self.frame.flags)
        if self.kind == "CloseStream":
            a = self.tr.truth(self.ack)
            return None if a is None else FIN | (ACK if a else 0)
        return None


def cmds(tr):
    return [Cmd(tr, *s) for s in tr.sends()]


def own_arc(tr):
    return tr.P.get(tr.at(0, tr.me()), "Stream.shared")


class SV(object):
    """fields of a stream's shared state"""

    def __init__(self, P, v):
        g = P.get
        self.v = v
        self.state = g(v, "Shared.state")
        fc = g(v, "Shared.flow_controller")
        self.sw = g(fc, "FlowController.send_window")
        self.rw = g(fc, "FlowController.receive_window")
        self.max = g(fc, "FlowController.max_receive_window")
        self.acc = g(fc, "FlowController.accumulated_max_stream_windows")
        self.config = g(fc, "FlowController.config")
        self.rtt = g(fc, "FlowController.rtt")
        self.last = g(fc, "FlowController.last_window_update")
        self.chunks = g(v, "Shared.buffer")
        self.seq = g(self.chunks, "Chunks.seq")
        self.unread = g(self.chunks, "Chunks.len")
        self.reader = g(v, "Shared.reader")
        self.writer = g(v, "Shared.writer")


def states(tr, s):
    return tr.variants(s, "State")


def can_read(tr, s):
    """True / False / None"""
    v = states(tr, s)
    if v <= {"Open", "SendClosed"}:
        return True
    if not v & {"Open", "SendClosed"}:
        return False
    return None


def can_write(tr, s):
    v = states(tr, s)
    if v <= {"Open", "RecvClosed"}:
        return True
    if not v & {"Open", "RecvClosed"}:
        return False
    return None


def queue_ready(tr):
    """[(i, event, shapes)] of readiness checks on the stream's command queue"""
    return [(i, e, {tuple(x for x in s if isinstance(x, str)) for s in tr.shapes(e[5], "Poll", "Result")})
            for i, e in tr.calls(("poll_ready",), "mpsc::Sender<")]


def shared_secs(tr):
    if not hasattr(tr, "_ss"):
        out = []
        for s in tr.shared():
            s2 = (s, SV(tr.P, s.v0), SV(tr.P, s.v1) if s.v1 is not None else None)
            out.append(s2)
        tr._ss = out
    return tr._ss


def is_waker_of(v, argn, tr=None):
    """v is the task waker of context argument argn, or known to wake the same task"""
    w = op("waker", mk("der", mk("sym", ("arg", argn))))
    if v is w:
        return True
    same = mk("str", "will_wake")
    return tr is not None and (tr.truth(op("cmpb", v, w, same)) is True or tr.truth(op("cmpb", w, v, same)) is True)


def ret_shapes(tr, *roles):
    return {tuple(x for x in s if isinstance(x, str)): (s[-1] if not isinstance(s[-1], str) else None) for s in tr.shapes(tr.ret, *roles)} if tr.kind == "return" else {}

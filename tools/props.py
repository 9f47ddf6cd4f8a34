"""Which specifications, behaviours and worlds decide each property."""
import vlib

# worlds: see harness/world.go
DIRECT = ["mem", "yamux", "rwc", "strmrwc", "verbose", "ws"]
NESTED = ["rpc", "rpcack", "rpc2", "proxy", "proxy2"]
ALLW = DIRECT + NESTED


def call(auto, kinds, cops, hops, faults=(), c=1, s=1, r=2, h=1):
    return dict(Grain="macro", AutoDeliver=auto, Kinds=set(kinds.split()), COps=set(cops.split()), HOps=set(hops.split()),
                Faults=set(faults), MaxC=c, MaxS=s, MaxRecv=r, MaxHalf=h)


def fill(bl, n):
    """Small suites: replay every behaviour several times (other sizes, timings, ids)."""
    res = list(bl)
    while len(res) < n and len(res) < 60 * len(bl):
        res += bl
    return res


def call_part(consts, worlds, quick, thorough, opt=None, maxlen=40, suite="call"):
    """Replay behaviours that together take every transition of Call."""
    def fn(ctx, name):
        g = ctx.graph("Call", consts, invariants=("Inv",))
        bl = ctx.cover(name, g, thorough if ctx.thorough else quick, maxlen)
        bl = fill(bl, 3 * quick if ctx.thorough else quick)
        ctx.replay(name, suite, bl, worlds, opt)
    return fn


def graph_part(module, consts, suite, worlds, quick, thorough=0, opt=None, maxlen=30, mode=None, invariants=("Inv",), fillup=True, **kw):
    """Replay a transition cover of a specification's graph."""
    def fn(ctx, name):
        g = ctx.graph(module, consts, invariants=() if mode else invariants, mode=mode, seed=ctx.seed)
        bl = ctx.cover(name, g, thorough if ctx.thorough else quick, maxlen)
        if fillup:
            bl = fill(bl, quick)
        ctx.replay(name, suite, bl, worlds, opt, **kw)
    return fn


PROPS = {}

G = False
A = True
PROPS["C01"] = dict(parts=[
    ("order-gated", call_part(call(G, "stream first", "send recv", "send recv ret", (), 2, 2, 3), ["gated"], 6000, 0)),
    ("order-auto", call_part(call(A, "stream first badfirst", "send recv sendbad", "send recv ret sendbad", (), 3, 3, 4), ALLW + ["pipe"], 1200, 0)),
    ("unary", call_part(call(A, "unary", "", "send recv ret", (), 1, 1, 2), ALLW, 1000, 0)),
    ("huge", call_part(call(A, "stream first unary", "send recv", "send recv ret", (), 1, 1, 2), ALLW, 24, 200, dict(huge="1"), maxlen=12)),
])
PROPS["C02"] = dict(parts=[
    ("end-gated", call_part(call(G, "stream", "send recv half", "send recv half ret", (), 1, 1, 3, 2), ["gated"], 8000, 0)),
    ("end-auto", call_part(call(A, "stream first", "send recv half", "send recv half ret fail", (), 2, 2, 3, 2), ALLW + ["pipe"], 1500, 0)),
    ("cut-gated", call_part(call(G, "stream", "send recv cancel close", "send recv close half ret", ["lose"], 1, 1, 2), ["gated"], 6000, 0)),
    ("cut-auto", call_part(call(A, "stream", "send recv half cancel close", "send recv half ret", ["lose"], 1, 1, 3), ALLW, 1000, 0)),
])
PROPS["C03"] = dict(parts=[
    ("outcome-gated", call_part(call(G, "stream unary", "recv half close cancel", "send ret fail", ["lose"], 0, 2, 4), ["gated"], 8000, 0)),
    ("outcome-pipe", call_part(call(A, "stream first unary unknown", "recv half close cancel", "send ret fail recv", [], 1, 1, 2), ["pipe"], 3000, 0)),
    ("outcome-auto", call_part(call(A, "stream first unary badresp unknown", "recv half close cancel", "send ret fail recv", ["lose"], 1, 2, 3), ALLW, 1200, 0)),
])
PROPS["C04"] = dict(parts=[
    ("cancel-gated", call_part(call(G, "stream unary", "send half cancel close", "recv send half ret", ["lose"], 1, 1, 2), ["gated", "deaf"], 6000, 0)),
    ("cancel-pipe", call_part(call(A, "stream first unary badresp", "send recv half cancel close precancel", "recv send half ret", [], 1, 1, 2), ["pipe"], 3000, 0)),
    ("cancel-auto", call_part(call(A, "stream first unary badresp", "send recv half cancel close precancel", "recv send half ret", ["lose"], 1, 1, 2), ALLW, 1200, 0)),
    ("serverctx", call_part(call(A, "stream first unary", "send recv half cancel", "recv send ret sx", [], 1, 1, 2), DIRECT + NESTED, 800, 0)),
    ("writes-fail", call_part(call(A, "stream unary", "send half cancel close", "recv send close ret", ["cwf", "swf"], 1, 1, 1), ["mem"], 3000, 0, dict(single="1"))),
])
PROPS["C05"] = dict(parts=[
    ("release-gated", call_part(call(G, "stream unary", "recv send cancel close precancel", "send ret", ["lose"], 1, 1, 3), ["gated", "deaf"], 8000, 0)),
    ("stall", call_part(call(A, "stream first unary", "recv send half cancel precancel", "send ret recv", ["lose", "stall"], 2, 1, 2), ["mem"], 4000, 0, dict(single="1"))),
    ("writes-fail", call_part(call(A, "stream first unary", "recv send close cancel", "send recv half close ret", ["cwf", "swf"], 1, 1, 1), ["mem"], 5000, 0, dict(single="1"))),
    ("opening", graph_part("Open", dict(Slots=2, MaxCalls=4, Kinds={"stream", "unary"}, Ops={"open", "precancel", "late", "cancel", "accept", "lose"}),
                           "open", ["yamux", "rwc"], 3000, opt=dict(slots="2"))),
    ("opening-1", graph_part("Open", dict(Slots=1, MaxCalls=5, Kinds={"stream", "unary"}, Ops={"open", "cancel", "accept", "lose"}),
                             "open", ["yamux"], 3000, opt=dict(slots="1"))),
    ("release-auto", call_part(call(A, "stream first unary unknown", "recv send half cancel close precancel", "send ret fail", ["lose"], 1, 1, 3), ALLW, 1000, 0)),
])
PROPS["C06"] = dict(parts=[
    ("once-gated", call_part(call(G, "stream first unary unknown nosvc nometh", "send recv cancel close", "recv ret", ["lose"], 1, 1, 2), ["gated"], 6000, 0)),
    ("once-auto", call_part(call(A, "stream first unary unknown nosvc nometh badfirst badreq", "send recv half cancel precancel", "recv send ret fail", ["lose"], 2, 1, 2), ALLW, 1200, 0)),
])
PROPS["C14"] = dict(parts=[
    ("nested-a", call_part(call(A, "stream first unary unknown", "send recv half cancel close precancel", "send recv half ret fail", ["lose"], 1, 1, 2), NESTED, 3000, 0)),
    ("nested-huge", call_part(call(A, "stream first unary", "send recv", "send recv ret", (), 1, 1, 2), NESTED, 16, 200, dict(huge="1"), maxlen=12)),
    ("nested-b", call_part(call(A, "stream first", "send recv half", "send recv half ret fail", (), 3, 2, 3), NESTED, 1500, 0)),
])
PROPS["C21"] = dict(parts=[
    ("leak", call_part(call(A, "stream first unary badresp badfirst badreq unknown nosvc nometh", "send recv half cancel close precancel", "send recv half ret fail", ["lose"], 1, 1, 2), ALLW, 1500, 0, dict(leak="1"))),
    ("leak-pipe", call_part(call(A, "stream first unary badresp badfirst badreq unknown nosvc nometh", "send recv half cancel close precancel", "send recv half ret fail", [], 1, 1, 2), ["pipe"], 3000, 0, dict(leak="1"))),
    ("leak-stall", call_part(call(A, "stream first unary", "recv send half cancel precancel", "send ret recv", ["lose", "stall"], 2, 1, 2), ["mem"], 2000, 0, dict(leak="1", single="1"))),
    ("leak-wf", call_part(call(A, "stream unary unknown", "recv send half close cancel", "send recv close ret fail", ["cwf", "swf"], 1, 1, 1), ["mem"], 6000, 0, dict(leak="1", single="1"))),
    ("leak-sx", call_part(call(A, "stream first unary", "send recv half cancel", "recv send ret sx", [], 1, 1, 2), ALLW, 600, 0, dict(leak="1"))),
])


GOOD_S = "start0 startE startD msg empty comp msgcomp emptycomp err msgerr cancel nocancel"
BAD = "nosvc nometh nil unknown garbage zerolen oversize"


def peer_part(side, good, bad, ops, inj, recv, worlds, quick, thorough, opt=None):
    def fn(ctx, name):
        g = ctx.graph("Peer", dict(Side=side, Good=set(good.split()), Bad=set(bad.split()), Ops=set(ops.split()), MaxInj=inj, MaxRecv=recv),
                      invariants=("Inv",))
        bl = fill(ctx.cover(name, g, thorough if ctx.thorough else quick, 30), quick)
        ctx.replay(name, "peer", bl, worlds, dict(opt or {}, side=side))
    return fn


PROPS["C21"]["parts"].append(("opening", graph_part("Open", dict(Slots=2, MaxCalls=3, Kinds={"stream", "unary"}, Ops={"open", "precancel", "late", "cancel", "accept", "lose"}),
                                                "open", ["yamux", "rwc"], 1500, opt=dict(slots="2", leak="1"))))
PROPS["C21"]["parts"].append(("end-oneway", peer_part("server", "start0 startD msg comp msgcomp err cancel", "garbage nil oversize", "recv send ret fail", 3, 2, ["oneway"], 3000, 0)))
PROPS["C07"] = dict(parts=[
    ("server-peer", peer_part("server", GOOD_S, BAD, "recv send ret fail", 3, 2, ["mem"], 4000, 0)),
    ("server-peer-net", peer_part("server", GOOD_S, BAD, "recv send ret fail", 3, 2, ["yamux", "rwc"], 1200, 0)),
    ("client-peer", peer_part("client", GOOD_S, BAD, "recv send half close cancel unary", 3, 2, ["mem"], 4000, 0)),
    ("client-peer-net", peer_part("client", GOOD_S, BAD, "recv send half close cancel unary", 3, 2, ["yamux", "rwc"], 1200, 0)),
    ("server-two", peer_part("server", "start0 startD msg comp emptycomp err cancel", "garbage nil nosvc", "two recv ret", 3, 1, ["mem"], 20000, 0)),
    ("client-two", peer_part("client", "msg empty comp msgcomp err cancel", "garbage nil start0", "two recv unary", 3, 1, ["mem"], 20000, 0)),
    ("server-oneway", peer_part("server", "start0 startD msg comp msgcomp err cancel", "garbage nil oversize", "recv send ret fail", 3, 2, ["oneway"], 4000, 0)),
    ("server-long", peer_part("server", "start0 startD msg comp err cancel", "garbage nil", "recv ret", 5, 3, ["mem"], 4000, 0)),
])


def framing_part(frames, chunks, ops, quick, thorough):
    def fn(ctx, name):
        g = ctx.graph("Framing", dict(Body=2, MaxFrames=frames, MaxChunks=chunks, Ops=set(ops.split())), invariants=("Inv",))
        bl = fill(ctx.cover(name, g, thorough if ctx.thorough else quick, 30), quick)
        ctx.replay(name, "framing", bl)
    return fn


def cwrite_part(n):
    def fn(ctx, name):
        bl = [{"steps": [{"a": ["cwrite", k, e], "o": []}], "over": True} for k in (2, 3, 8) for e in (2, 10, 40)]
        ctx.replay(name, "cwrite", fill(bl, 10 * n if ctx.thorough else n))
    return fn


PROPS["C08"] = dict(parts=[
    ("frames", framing_part(2, 4, "write werr bad cberr eof err chunk chunkeof chunkerr", 8000, 0)),
    ("chunks", framing_part(3, 6, "write chunk chunkeof eof bad", 6000, 0)),
    ("writers", cwrite_part(400)),
])


def design_part(consts, invariants=("Inv",), properties=("StatusStable",), spec="Spec", timeout=800):
    """Check the specification itself: every reaction interleaves freely."""
    def fn(ctx, name):
        ctx.model(name, "Call", dict(consts, Grain="free"), invariants, properties, spec, timeout)
    return fn


DESIGN_Q = call(A, "stream first unary", "send recv half cancel close", "send recv half ret fail", ["lose"], 1, 1, 2)
for pid in ("C01", "C02", "C03", "C04", "C05", "C06", "C14", "C21"):
    PROPS[pid]["parts"].insert(0, ("design", design_part(DESIGN_Q)))
for pid, live in (("C04", ("HReleased", "CancelSeen")), ("C05", ("Released",)), ("C21", ("Cleanup",))):
    PROPS[pid]["parts"].append(("deep-liveness", design_part(call(A, "stream first unary", "send recv half cancel close", "send recv ret", ["lose"], 1, 1, 1),
                                                             (), live, "FairSpec", 3000)))

TECH = ("TLA+ specification checked with TLC; every transition of its bounded state graph is replayed on the real code "
        "(model-based conformance testing) and the observations compared")
NOTE = ("Within the bounds (message counts, operations per side) all transitions of the specification's graph are generated by TLC; "
        "quick replays a seed-chosen sample of a transition cover, thorough replays the whole cover in every transport. "
        "Trusted: TLC, the harness, Go's synctest bubbles (quiescence after each operation), the message-number abstraction.")


RAW_OPS = set("new nil set unm reset2 reunm mut clear reset mar msz bad".split())
PROPS["C25"] = dict(parts=[
    ("short", graph_part("RawMsg", dict(MaxOps=5, MaxBufs=3, Lens={0, 1, 2}, Ops=RAW_OPS), "rawmsg", [None], 30000)),
    ("long", graph_part("RawMsg", dict(MaxOps=12, MaxBufs=5, Lens={0, 1, 2, 3}, Ops=RAW_OPS), "rawmsg", [None], 6000, mode=("sim", 2000, 13))),
])

MUX_OPS = set("fall make reg call has hasm".split())


def mux_part(svcs, meths, reg, fall, answers, quick, via="", mode=None):
    opt = dict(maxreg=str(reg))
    if via:
        opt["via"] = via
    return graph_part("Mux", dict(Svcs=set(svcs.split()), Meths=set(meths.split()), MaxReg=reg, MaxFall=fall, Ops=MUX_OPS, Answers=set(answers.split())),
                      "mux", [None], quick, opt=opt, mode=mode)


ANS = "ok err no noerr"
PROPS["C11"] = dict(parts=[
    ("dispatch", mux_part("S T", "A B", 2, 0, "ok", 12000)),
    ("reentrant", mux_part("S T", "A", 3, 0, "ok nest", 8000)),
    ("histories", mux_part("S T", "A B", 5, 3, ANS + " nest", 6000, mode=("sim", 800, 25))),
    ("fallback", mux_part("S", "A", 1, 3, ANS, 20000)),
    ("slice", mux_part("S", "A", 1, 3, ANS, 10000, via="slice")),
])
PROPS["C12"] = dict(parts=[
    ("prefixes", graph_part("Prefix", dict(Letters={"a", "b"}, MaxPfx=3, MaxPfxLen=2, MaxIdLen=3, Kinds={"exec", "stream", "invoke"}), "prefix", [None], 6000, maxlen=60)),
    ("three-letters", graph_part("Prefix", dict(Letters={"a", "b", "c"}, MaxPfx=2, MaxPfxLen=2, MaxIdLen=3, Kinds={"exec", "invoke"}), "prefix", [None], 6000, maxlen=100)),
])
PROPS["C13"] = dict(parts=[
    ("failover", graph_part("ClientSet", dict(MaxClients=4, Answers={"ok", "err", "unimpl", "unimpltext", "cancel", "ctxend"}, Kinds={"exec", "stream"}), "clientset", [None], 30000)),
])
def bytes_part(ops, worlds, quick, msgs=3, reads=3, need=3, writes=1, ln=2, **kw):
    return graph_part("Bytes", dict(MaxLen=ln, MaxMsgs=msgs, MaxReads=reads, MaxNeed=need, MaxWrites=writes, Ops=set(ops.split())), "bytes", worlds, quick, **kw)


PROPS["C18"] = dict(parts=[
    ("stream-view", bytes_part("send endeof enderr read write close", ["srwc"], 8000)),
    ("rpcstream-view", bytes_part("send endeof enderr ackerr ackok read write close", ["rrw"], 10000)),
    ("pipe-view", bytes_part("send endeof read write", ["pipe"], 4000, 4, 4)),
    ("long", bytes_part("send endeof read", ["srwc", "rrw"], 4000, 5, 5, 4, 0, 3)),
    ("writes", bytes_part("send write read close", ["srwc", "rrw", "pipe"], 3000, 1, 1, 1, 4, 3)),
    ("bulk", bytes_part("send endeof read write", ["srwc", "rrw", "pipe"], 160, 4, 4, 4, 2, 3, thorough=800, opt=dict(bulk="1"), fillup=False)),
])


def conn_part(ops, quick, sends=3, reads=2, need=3, writes=1, ln=2, **kw):
    return graph_part("Conn", dict(MaxLen=ln, MaxSends=sends, MaxReads=reads, MaxNeed=need, MaxWrites=writes, Ops=set(ops.split())), "conn", [None], quick, **kw)


PROPS["C19"] = dict(parts=[
    ("read", conn_part("send end sendend read close cancel", 8000)),
    ("deadline", conn_part("send end read retry arm armpast clear time half close cancel", 12000, 2)),
    ("write", conn_part("write werr read close cancel", 4000, 1, 1, 1, 4, 3)),
    ("backlog", conn_part("send sendend read close", 4000, 4, 5, 6, 0, 6)),
    ("bulk", conn_part("send sendend read write", 120, 4, 4, 4, 2, 3, thorough=400, opt=dict(bulk="1"), fillup=False)),
    ("muxer", call_part(call(A, "stream first", "send recv half", "send recv half ret", (), 2, 2, 2), ["rwc"], 600, 0)),
])
PROPS["C15"] = dict(parts=[
    ("caller", graph_part("Setup", dict(Side="caller", Ops={"open", "peer", "end"}), "setup", [None], 4000, opt=dict(side="caller"))),
    ("serve", graph_part("Setup", dict(Side="rpc", Ops={"serve", "serr", "peer", "end", "hret"}), "setup", [None], 8000, opt=dict(side="rpc", leak="1"))),
])


def tunnel_part(kind, ops, getters, firsts, quick, worlds=(None,), a=2, b=2, ln=2, thorough=0, opt=None, **kw):
    return graph_part("Tunnel", dict(Kind=kind, MaxA=a, MaxB=b, MaxLen=ln, Ops=set(ops.split()), Getters=set(getters.split()), Firsts=set(firsts.split())),
                      "tunnel", worlds, quick, thorough, dict(opt or {}, kind=kind, leak="1"), **kw)


TUN = "serve first firstend a b endaeof endaerr endacancel endbeof endberr bursta burstb"
PROPS["C16"] = dict(parts=[
    ("proxy", tunnel_part("proxy", TUN, "found foundnorel nocaller none err errrel callererr callernil senderr getterblock callerblock callerboth", "init ack data empty", 6000)),
    ("gone", tunnel_part("proxy", "serve first a b gonea goneb", "found", "init", 4000)),
    ("long", tunnel_part("proxy", TUN + " gonea goneb", "found", "init", 6000, (None,), 4, 4, 2)),
    ("bulk", tunnel_part("proxy", "serve first a b endaeof endbeof bursta burstb", "found", "init", 160, (None,), 3, 3, 2, 600, dict(bulk="1"), fillup=False)),
    ("calls", call_part(call(A, "stream first", "send recv half cancel close", "send recv half ret fail", ["lose"], 1, 1, 2), ["proxy", "proxy2"], 1500, 0)),
])
PROPS["C17"] = dict(parts=[
    ("raw", tunnel_part("raw", TUN, "found foundnorel none err errrel errB ackfail getterblock", "init ack data empty", 6000)),
    ("long", tunnel_part("raw", TUN, "found", "init", 6000, (None,), 4, 4, 3)),
    ("end-to-end", tunnel_part("raw", "serve first a b endaeof endaclose endacancel endbeof endberr bursta burstb", "found none err errrel", "init", 1500, ("mem", "yamux", "rwc"))),
    ("bulk", tunnel_part("raw", "serve first a b endaeof endbeof bursta burstb", "found", "init", 160, ("mem", "yamux", "rwc"), 3, 3, 2, 600, dict(bulk="1"), fillup=False)),
])


def pipe_part(ops, quick, sends, recvs, mode=None, opt=None):
    """The buffer size of a stream pair is measured, not assumed."""
    def fn(ctx, name):
        cap = vlib.probe("pipe")
        o = set(ops.split())
        if cap > 16:
            o -= {"fill", "drain"}
        g = ctx.graph("Pipe", dict(Cap=cap, MaxSend=sends, MaxRecv=recvs, Ops=o), invariants=() if mode else ("Inv",), mode=mode, seed=ctx.seed)
        bl = fill(ctx.cover(name, g, 0 if ctx.thorough else quick, 40), quick)
        ctx.replay(name, "pipe", bl, [None], dict(opt or {}, leak="1"))
    return fn


PROPS["C22"] = dict(parts=[
    ("both", pipe_part("send recv half close cancel", 20000, 1, 1)),
    ("full", pipe_part("send recv half close cancel fill drain", 20000, 1, 1)),
    ("long", pipe_part("send recv half close cancel fill drain", 6000, 8, 8, ("sim", 3000, 25))),
])
PROPS["C24"] = dict(parts=[
    ("wrap", graph_part("Wrap", dict(Kinds={"stream", "writer", "client"}, Depths={1, 2, 3}, MaxOps=2), "wrap", [None], 6000)),
    ("wrap-long", graph_part("Wrap", dict(Kinds={"stream", "writer", "client"}, Depths={1, 2}, MaxOps=8), "wrap", [None], 4000, mode=("sim", 1500, 9))),
    ("mux", mux_part("S T", "A B", 5, 3, ANS + " nest", 6000, via="verbose", mode=("sim", 800, 25))),
    ("calls", call_part(call(A, "stream first unary unknown nosvc nometh", "send recv half cancel close precancel", "send recv half ret fail", ["lose"], 1, 1, 2), ["verbose"], 4000, 0)),
    ("stream", call_part(call(A, "stream first", "send recv half cancel close", "send recv half ret fail", ["lose"], 1, 1, 2), ["mem"], 3000, 0, dict(wrap="1"))),
    ("pipe", pipe_part("send recv half close cancel", 8000, 1, 1, None, dict(wrap="1"))),
])


def multi_part(consts, worlds, quick, thorough, calls=(2, 12), maxlen=20, variant="", opt=None):
    """Behaviours of several calls, which share a connection."""
    def fn(ctx, name):
        import random
        g = ctx.graph("Call", consts, invariants=("Inv",))
        bl = ctx.cover(name, g, (thorough if ctx.thorough else quick) * 6, maxlen)
        rng = random.Random(ctx.seed)
        short = [b for b in bl if len(b["steps"]) <= 2]
        groups = []
        for _ in range(thorough if ctx.thorough else quick):
            behs = [rng.choice(short if short and rng.random() < 0.15 else bl) for _ in range(rng.randint(*calls))]
            groups.append({"steps": [], "over": True, "cfg": {"behs": behs}})
        ctx.replay(name, "multi", groups, worlds, opt, variant=variant)
    return fn


MULTI = call(A, "stream first unary badresp badfirst badreq unknown nosvc nometh", "send recv half cancel close precancel", "send recv half close ret fail", (), 1, 1, 2)
CROWD = call(A, "stream first unary", "send recv", "send recv ret", (), 1, 1, 2)
PROPS["C10"] = dict(parts=[
    ("several", multi_part(MULTI, ["yamux", "rwc", "ws", "rpc", "proxy", "pipe", "verbose"], 1500, 20000)),
    ("many", multi_part(MULTI, ["yamux", "rpcack"], 60, 1000, (60, 160))),
    ("crowd", multi_part(CROWD, ["yamux", "ws", "rpc"], 3, 20, (900, 1500), 6, "", dict(crowd="1"))),
])


def hist_part(worlds, quick, thorough, variant="", opt=None):
    """Executions in which several goroutines use the call at once."""
    def fn(ctx, name):
        c = dict(Grain="macro", AutoDeliver=True, Kinds={"stream"}, COps=set(), HOps=set(), Faults=set(), MaxC=9, MaxS=9, MaxRecv=9, MaxHalf=2)
        ctx.histories(name, "Hist", c, "hist", worlds, thorough if ctx.thorough else quick, opt, variant)
    return fn


def flow_part(worlds, quick, thorough, variant="woven"):
    """Both ends of a byte stream are used by several goroutines."""
    def fn(ctx, name):
        ctx.histories(name, "Flow", {}, "flow", worlds, thorough if ctx.thorough else quick, None, variant)
    return fn


def muxhist_part(quick, thorough, variant="woven"):
    def fn(ctx, name):
        ctx.histories(name, "MuxHist", {}, "muxhist", [None], thorough if ctx.thorough else quick, None, variant)
    return fn


PROPS["C11"]["parts"].append(("concurrent", muxhist_part(3000, 40000)))
PROPS["C11"]["parts"].append(("races", muxhist_part(300, 4000, "race")))
PROPS["C18"]["parts"].append(("concurrent", flow_part(["pipe", "piperrw", "yamux", "rpc"], 1500, 20000)))
PROPS["C19"]["parts"].append(("concurrent", flow_part(["conn", "connpipe"], 2500, 40000)))
PROPS["C17"]["parts"].append(("concurrent", flow_part(["raw"], 1200, 30000)))
PROPS["C22"]["parts"].append(("concurrent", flow_part(["pipemsgs"], 4000, 40000)))
PROPS["C09"] = dict(parts=[
    ("concurrent", hist_part(["mem", "pipe", "yamux", "rpc"], 1500, 20000)),
    ("woven", hist_part(["mem", "pipe", "yamux", "rpc"], 3000, 20000, "woven")),
    ("calls", hist_part(["yamux", "ws", "rpc", "proxy"], 400, 5000, "woven", dict(calls="4"))),
    ("races", hist_part(["mem", "yamux", "rpc", "proxy"], 300, 5000, "race")),
])


def stub_part(ops, quick, worlds, kinds="u s c b", c=2, sn=2, r=2, v=3, opt=None, **kw):
    return graph_part("Stub", dict(Kinds=set(kinds.split()), MaxC=c, MaxS=sn, MaxRecv=r, Vars=v, Ops=set(ops.split())), "stub", worlds, quick, opt=opt, **kw)


STUB_OPS = "open openfast ccancel csend csendnil chalf crecv car hsend hsc hrecv hret unknown"
PROPS["C23"] = dict(parts=[
    ("stubs", stub_part(STUB_OPS, 8000, ["mem", "yamux", "pipe", "rpc"])),
    ("reference", graph_part("Echo", dict(MaxSend=3, MaxRecv=6, MaxUnary=2), "echo", ["yamux", "pipe", "ws", "proxy"], 1500)),
    ("regenerated", stub_part(STUB_OPS, 8000, ["mem", "pipe"], variant="regen")),
])


def server_part(via, kinds, stops, ops, quick, conns=2, calls=1, mode=None):
    return graph_part("Server", dict(MaxConn=conns, MaxCalls=calls, Kinds=set(kinds.split()), Stops=set(stops.split()), Ops=set(ops.split())),
                      "servertcp" if via == "tcp" else "server", [None], quick, opt=dict(via=via), mode=mode)


SRV = "connect call callall open cancel leave break stop late"
PROPS["C20"] = dict(parts=[
    ("listener", server_part("listener", "good idle garbage", "base close", SRV + " junk", 4000)),
    ("http", server_part("http", "good idle garbage wrongpath", "base", SRV, 3000)),
    ("conn", server_part("conn", "good", "base", SRV + " junk", 2000)),
    ("many", server_part("listener", "good idle garbage", "close", SRV + " junk", 3000, 8, 8, ("sim", 1500, 30))),
    ("crowd", server_part("listener", "good", "close", "crowd connect call callall open leave stop", 6, 100, 150, ("sim", 6, 260))),
    ("crowd-http", server_part("http", "good", "base", "crowd connect call callall open leave stop", 6, 100, 150, ("sim", 6, 260))),
    ("tcp", server_part("tcp", "good idle garbage", "ctx errch", SRV + " refused dialfail inuse", 4000)),
    ("tcp-many", server_part("tcp", "good idle garbage", "ctx errch", SRV + " refused", 300, 8, 8, ("sim", 300, 30))),
])


def wire_part(msg, top, sub, quick, mode=None, bads="trunc wrongtype tag0 endgroup type6 overlong hugelen"):
    return graph_part("Wire", dict(Msg=msg, MaxTop=top, MaxSub=sub, Unknown=set("vl48g"), Bads=set(bads.split())),
                      "protowire", [None], quick, opt=dict(msg=msg), mode=mode)


PROPS["C26"] = dict(parts=[
    ("packet", wire_part("Packet", 1, 2, 20000)),
    ("packet-merge", wire_part("Packet", 2, 1, 20000)),
    ("packet-long", wire_part("Packet", 5, 5, 6000, ("sim", 3000, 40), "trunc")),
    ("callstart", wire_part("CallStart", 3, 0, 10000)),
    ("calldata", wire_part("CallData", 3, 0, 10000)),
    ("rpcpacket", wire_part("RpcStreamPacket", 2, 2, 20000)),
    ("rpcpacket-long", wire_part("RpcStreamPacket", 5, 5, 4000, ("sim", 2000, 40), "trunc")),
    ("init", wire_part("RpcStreamInit", 3, 0, 2000)),
    ("ack", wire_part("RpcAck", 3, 0, 2000)),
    ("echo", wire_part("EchoMsg", 3, 0, 2000)),
])

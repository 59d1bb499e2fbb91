from .common import *
from slmv import loops as L
from slmv.pyvals import PyNum


# ---- the ghost history of hardware calls ----------------------------------------------------------------------------
ARGS = {
    "SeqAlloc": ("nbImg", "bitDepth"), "SeqControl": ("controlType", "value", "SequenceId"),
    "SeqPut": ("imgData", "SequenceId", "PicOffset", "PicLoad", "dataFormat"),
    "SetTiming": ("SequenceId", "illuminationTime", "pictureTime", "synchDelay", "synchPulseWidth", "triggerInDelay"),
    "Run": ("SequenceId", "loop"), "ProjControl": ("controlType", "value"), "DevControl": ("controlType", "value"),
    "DevInquire": ("inquireType",), "SeqInquire": ("inquireType", "SequenceId"),
    "set_sequencer_state": ("cmd", "enable"), "set_sequencer_reg": ("reg_no", "reg_val"), "load_image": ("inum", "image"),
    "load_sequence": ("seq",), "set_software_sync": ("level",),
}


class Ev:
    def __init__(self, e):
        self.dev, self.op = e[0], e[1]
        if self.dev == "loop":
            self.n, self.k, self.body = e[1], e[2], [Ev(x) for x in e[3]]
            self.op = "loop"
            return
        self.a = dict(zip(ARGS.get(self.op, ()), e[2]))
        self.extra = e[2][len(ARGS.get(self.op, ())):]
        self.a.update(e[3])

    def __getitem__(self, n):
        return self.a.get(n)

    def is_(self, op, **kw):
        return self.op == op and all(same(self.a.get(k), x) for k, x in kw.items())


def same(a, b):
    if isinstance(b, str):
        return getattr(a, "n", None) == b
    if isinstance(b, int):
        return isinstance(a, (int, float)) and a == b or isinstance(a, PyNum) and val(a) is num(b)
    return a is b


def history(v, start=0):
    return [Ev(e) for e in v.ctx.events[start:]]


KINDS = ("base", "alp", "lux")


def controller(v, kind, invert=None):
    C = v.module("util.controller")
    kw = {} if invert is None else {"invert": invert}
    if kind == "alp":
        return C.ALPController(**kw)
    if kind == "lux":
        return C.LuxbeamController("192.168.0.10", **kw)
    return C.DMDControllerBase(**kw)


class Frames:
    """a list of N >= 1 boolean frames, N symbolic or given"""

    def __init__(self, v, n=None, name="frames"):
        o = "" if name == "frames" else name
        self.Ny, self.Nx = v.int(o + "rows", 1), v.int(o + "cols", 1)
        self.ny, self.nx = self.Ny.t, self.Nx.t
        self.N = v.int(o + "N", 1, None, gen=lambda r: int(r.integers(1, 4))) if n is None else n
        self.n = tm(self.N)
        self.all = v.input(name, (self.N, self.Ny, self.Nx), "bool")
        if n is None:
            made = {}

            def fn(k):
                if k not in made:
                    made[k] = self.frame(k)
                return made[k]
            self.list = L.JList.symbolic(SList(self.n, fn))
        else:
            self.list = [self.frame(num(k)) for k in range(n)]

    def frame(self, k):
        return X.NpArray(nd.Core((self.ny, self.nx), "bool", lambda i, j: self.all.at(k, i, j)))


# ---- C29 ----------------------------------------------------------------------------------------------------------
def operations(c, f):
    one = f.frame(num(0))
    ops = {
        "load_single": lambda: c.load_single(one), "load_single(dmd_state=)": lambda: c.load_single(dmd_state=one),
        "load_multiple": lambda: c.load_multiple(f.list), "load_multiple(dmd_states=)": lambda: c.load_multiple(dmd_states=f.list),
        "load_sequence": lambda: c.load_sequence(f.list), "Nx": lambda: c.Nx, "Ny": lambda: c.Ny, "number_image": lambda: c.number_image(7),
    }
    return ops


def refused(v, name, c, f):
    for n, op in operations(c, f).items():
        before = len(v.ctx.events)
        v.raises("%s: %s refused" % (name, n), Exception, op)
        v.true("%s: %s sends nothing" % (name, n), len(v.ctx.events) == before)


def c29_before(v):
    "before initialize every operation raises and nothing is sent"
    v.package()
    c = controller(v, v.config["kind"], v.config.get("invert"))
    f = Frames(v, v.config.get("N"))
    v.true("not initialized", c.is_initialized() is False)
    refused(v, "fresh", c, f)
    v.true("still not initialized", c.is_initialized() is False)
    # two controllers do not share the setting
    d = controller(v, v.config["kind"])
    d.initialize()
    refused(v, "the other was initialized", c, f)


def c29_after(v):
    "after initialize the operations are carried out"
    v.package()
    k = v.config["kind"]
    c = controller(v, k)
    f = Frames(v, v.config.get("N"))
    c.initialize()
    v.true("initialized", c.is_initialized() is True)
    for n, op in operations(c, f).items():
        before = len(v.ctx.events)
        r, e = v.attempt(op)
        if k == "base" or n == "load_sequence":
            v.true(n + " reaches the operation", isinstance(e, NotImplementedError))
            continue
        v.true(n + " is carried out", e is None)
        if n.startswith("load"):
            v.true(n + " sends", len(v.ctx.events) > before)
        elif n in ("Nx", "Ny"):
            w = {"alp": {"Nx": "hw_DevInquire_ALP_DEV_DISPLAY_WIDTH", "Ny": "hw_DevInquire_ALP_DEV_DISPLAY_HEIGHT"},
                 "lux": {"Nx": "hw_cols", "Ny": "hw_rows"}}[k][n]
            v.eq(n, v.value(r), T.var(w, "I"))
        else:
            v.array("number image", r, (v.value(c.Ny), v.value(c.Nx)), "bool", "np")


def c29_failed(v):
    "an initialization that fails, at whichever hardware call, leaves the controller uninitialized"
    v.package()
    k = v.config["kind"]
    f = Frames(v, 2)
    for at in range(40):
        c = controller(v, k, v.config.get("invert"))
        v.u.hw.fail_at = v.u.hw.count + at
        r, e = v.attempt(c.initialize)
        v.u.hw.fail_at = None
        if e is None:
            v.true("all calls were tried", at > 0)
            v.true("initialized", c.is_initialized() is True)
            break
        v.true("not initialized", c.is_initialized() is False)
        refused(v, "call %d failed" % at, c, f)
        # a later attempt that completes makes it usable
        c.initialize()
        v.true("initialized by a later attempt", c.is_initialized() is True)
    else:
        v.fail("terminates")


# ---- C30 ----------------------------------------------------------------------------------------------------------
def check_data(v, name, x, f, n):
    """x, flattened row by row, is frame 0 .. frame n-1 with 255 for on and 0 for off"""
    if not isinstance(x, X.NpArray):
        return v.fail(name, "is a %s" % type(x).__name__)
    c = x.core
    size = num(1)
    for s in c.shape:
        size = T.mul(size, s)
    v.eq(name + ".size", size, T.mul(n, f.ny, f.nx))
    k, i, j = v.idx("k", n), v.idx("i", f.ny), v.idx("j", f.nx)
    row = T.add(T.mul(k, f.ny), i)
    if c.rank == 3:
        v.eq(name + ".rows", c.shape[1], f.ny)
        v.eq(name + ".cols", c.shape[2], f.nx)
        got = c.at(k, i, j)
    elif c.rank == 2:
        v.eq(name + ".cols", c.shape[1], f.nx)
        got = c.at(row, j)
    elif c.rank == 1:
        got = c.at(T.add(T.mul(row, f.nx), j))
    else:
        raise Unsupported("frame data of rank %d" % c.rank)
    if isinstance(got, T.Term) and got.sort == "B":
        got = ite(got, num(1), num(0))
    v.eq(name, got, ite(f.all.at(k, i, j), num(255), num(0)))


def force(hist, op, ctl, default=None):
    "value of a control in force after a history"
    for e in reversed(hist):
        if e.is_(op, controlType=ctl):
            return getattr(e["value"], "n", e["value"])
        if e.op == "Initialize":            # a device just allocated has its default settings
            break
    return default


def positions(h, op, **kw):
    return [k for k, e in enumerate(h) if e.is_(op, **kw)]


def check_load(v, name, whole, h, f, n, triggered):
    def req(what, ok):
        v.true("%s: %s" % (name, what), bool(ok))
    req("not empty", h)
    if not h:
        return
    req("no repeated calls over the frames", all(e.op != "loop" for e in h))
    req("halts first", h[0].op == "Halt")
    req("runs last", h[-1].op == "Run" and len(positions(h, "Run")) == 1)
    al = positions(h, "SeqAlloc")
    req("one allocation", len(al) == 1)
    if len(al) != 1:
        return
    a = al[0]
    v.eq(name + ": pictures", tm(h[a]["nbImg"] if h[a]["nbImg"] is not None else 1), n)
    v.eq(name + ": bits", tm(h[a]["bitDepth"] if h[a]["bitDepth"] is not None else 1), num(1))
    req("the new sequence is not freed", not [k for k in positions(h, "FreeSeq") if k > a])
    bm = positions(h, "SeqControl", controlType="ALP_BIN_MODE")
    req("binary mode uninterrupted", bm and bm[0] > a and all(same(h[k]["value"], "ALP_BIN_UNINTERRUPTED") for k in bm))
    pu = positions(h, "SeqPut")
    req("one transfer", len(pu) == 1 and pu[0] > a)
    if len(pu) == 1:
        e = h[pu[0]]
        req("whole sequence", e["PicOffset"] in (None, 0) and e["PicLoad"] in (None, 0) and e["dataFormat"] in (None, "Python"))
        check_data(v, name + ": data", e["imgData"], f, n)
    ti = positions(h, "SetTiming")
    req("timing", ti and ti[0] > a)
    mode = force(whole, "ProjControl", "ALP_PROJ_MODE", "ALP_MASTER")
    if triggered:
        req("waits for triggers", mode in ("ALP_SLAVE", "ALP_SLAVE_VD"))
        req("rising edge", force(whole, "DevControl", "ALP_TRIGGER_EDGE") == "ALP_EDGE_RISING")
        req("picture time", ti and h[ti[-1]]["pictureTime"] is not None)
        if ti and h[ti[-1]]["pictureTime"] is not None:
            v.eq(name + ": minimal picture time", tm(h[ti[-1]]["pictureTime"]), T.var("hw_SeqInquire_ALP_MIN_PICTURE_TIME", "I"))
            q = positions(h, "SeqInquire", inquireType="ALP_MIN_PICTURE_TIME")
            req("of this sequence", q and q[-1] > a and bm and q[-1] > bm[-1])
    else:
        req("without trigger", mode == "ALP_MASTER")


def load(v, c, f, what):
    k = len(v.ctx.events)
    if what == "reopen":
        c.close()
        c.initialize()
    elif what == "single":
        c.load_single(f.list[0] if f.n is num(1) else f.frame(num(0)))
    else:
        c.load_multiple(f.list)
    return k


def earlier(v, c, f):
    "the earlier loads, of other frames and of the same"
    n = v.config.get("N")
    g = Frames(v, n and n + 1, "other_")
    for k, w in enumerate(v.config.get("before", [])):
        load(v, c, (g, f)[k % 2], w)


def c30_load(v):
    "the calls of load_single and load_multiple, after any earlier loads"
    v.package()
    c = controller(v, "alp", v.config.get("invert"))
    c.initialize()
    f = Frames(v, v.config.get("N"))
    earlier(v, c, f)
    what = v.config["load"]
    k = load(v, c, f, what)
    one = what == "single"
    check_load(v, what, history(v), history(v, k), f, num(1) if one else f.n, not one)
    i, j, q = v.idx("i_", f.ny), v.idx("j_", f.nx), v.idx("q_", f.n)
    fr = f.list[0] if v.config.get("N") else f.list.sym.get(q)
    v.eq("frames unchanged", v.at(fr, i, j), f.all.at(num(0) if v.config.get("N") else q, i, j))


def failing(v, c, f, what, check):
    "a load that the device interrupts, at whichever call, does not change what the next load sends"
    for at in range(40):
        v.u.hw.fail_at = v.u.hw.count + at
        r, e = v.attempt(load, v, c, f, what)
        v.u.hw.fail_at = None
        if e is None:
            v.true("all calls were tried", at > 0)
            return
        check("after call %d of load_%s failed, " % (at, what))
    v.fail("terminates")


def c30_failed(v):
    "the calls of a load after an earlier one was interrupted"
    v.package()
    c = controller(v, "alp", v.config.get("invert"))
    c.initialize()
    f, g = Frames(v, 2), Frames(v, 3, "other_")
    what = v.config["load"]

    def check(name):
        k = load(v, c, f, what)
        check_load(v, name + what, history(v), history(v, k), f, num(1) if what == "single" else f.n, what != "single")
    failing(v, c, g, v.config["first"], check)


def c30_initialize(v):
    "inversion is enabled at initialization exactly when requested"
    v.package()
    inv = v.bool("invert") if v.config["invert"] == "sym" else v.config["invert"]
    c = controller(v, "alp", inv)
    o = len(v.ctx.events)
    if v.config.get("again"):
        c.initialize()
        f = Frames(v, 2)
        load(v, c, f, v.config["again"])
        o = len(v.ctx.events)
        c.close()
    c.initialize()
    h = history(v, o)
    v.true("device initialized", len(positions(h, "Initialize")) == 1)
    on = force(h, "ProjControl", "ALP_PROJ_INVERSION", "ALP_DEFAULT")
    want = tm(bool(inv) if not isinstance(inv, PyNum) else inv)
    v.true("inversion", T.eq(T.boolean(on == "ALP_ENABLE"), want))
    v.true("known setting", on in ("ALP_ENABLE", "ALP_DISABLE", "ALP_DEFAULT"))
    k = positions(h, "Initialize")
    p = positions(h, "ProjControl")
    v.true("after the device is initialized", not p or k and p[0] > k[0])


# ---- C31 ----------------------------------------------------------------------------------------------------------
class Sequencer:
    "ghost state of the Visitech sequencer while a history is read"

    def __init__(self):
        self.run = self.reset = None


def onoff(e):
    n = getattr(e["enable"], "n", None)
    return {"ENABLE": True, "DISABLE": False}.get(n, {1: True, 0: False}.get(e["enable"] if isinstance(e["enable"], (bool, int)) else None))


def c31_failed(v):
    "the calls of a load after an earlier one was interrupted"
    v.package()
    c = controller(v, "lux", v.config.get("invert"))
    c.initialize()
    f, g = Frames(v, 2), Frames(v, 3, "other_")
    what = v.config["load"]
    failing(v, c, g, v.config["first"], lambda name: check31(v, name + what, c, f, what))


def c31_load(v):
    "the calls of load_single and load_multiple"
    v.package()
    c = controller(v, "lux", v.config.get("invert"))
    c.initialize()
    f = Frames(v, v.config.get("N"))
    earlier(v, c, f)
    what = v.config["load"]
    check31(v, what, c, f, what)
    i, j, q = v.idx("i_", f.ny), v.idx("j_", f.nx), v.idx("q_", f.n)
    fr = f.list[0] if v.config.get("N") else f.list.sym.get(q)
    v.eq("frames unchanged", v.at(fr, i, j), f.all.at(num(0) if v.config.get("N") else q, i, j))


def check31(v, name, c, f, load_what):
    k = load(v, c, f, load_what)
    one = load_what == "single"
    n = num(1) if one else f.n
    h = history(v, k)
    what = name

    def req(name, ok):
        v.true("%s: %s" % (what, name), bool(ok))
    req("not empty", h)
    if not h:
        return
    st = [(i, getattr(e["cmd"], "n", None), onoff(e)) for i, e in enumerate(h) if e.op == "set_sequencer_state"]
    req("known sequencer commands", all(c_ in ("SEQ_CMD_RUN", "SEQ_CMD_RESET") and b is not None for _, c_, b in st))
    runs = [(i, b) for i, c_, b in st if c_ == "SEQ_CMD_RUN"]
    req("stops the sequencer first", runs and runs[0] == (0, False))
    req("restarts the sequencer last", runs and runs[-1] == (len(h) - 1, True) and all(not b for _, b in runs[:-1]))
    rg = positions(h, "set_sequencer_reg")
    req("one register write", len(rg) == 1)
    if len(rg) == 1:
        e = h[rg[0]]
        v.eq(what + ": register", tm(e["reg_no"]), num(0))
        v.eq(what + ": image count", tm(e["reg_val"]), n)
        before = [b for i, c_, b in st if c_ == "SEQ_CMD_RESET" and i < rg[0]]
        req("held in reset", before and before[-1])
        after = [b for i, c_, b in st if c_ == "SEQ_CMD_RESET" and i > rg[0]]
        req("released", after and not after[-1])
    im = [(i, e) for i, e in enumerate(h) if e.op in ("load_image", "loop")]
    pos = [num(0)]
    for i, e in im:
        if e.op == "loop":
            req("one image per round", len(e.body) == 1 and e.body[0].op == "load_image")
            if len(e.body) == 1 and e.body[0].op == "load_image":
                q = v.idx("q%d" % i, e.n)
                b = e.body[0]
                at = lambda t: T.subst(t, {e.k: q})
                v.eq(what + ": slot", at(tm(b["inum"])), T.add(pos[-1], q))
                check_frame(v, what, b["image"], f, T.add(pos[-1], q), {e.k: q})
            pos.append(T.add(pos[-1], e.n))
        else:
            v.eq(what + ": slot", tm(e["inum"]), pos[-1])
            check_frame(v, what, e["image"], f, pos[-1], {})
            pos.append(T.add(pos[-1], num(1)))
    v.eq(what + ": all frames are loaded", pos[-1], n)


def check_frame(v, name, x, f, k, m):
    if not isinstance(x, X.NpArray):
        return v.fail(name + ": image", "is a %s" % type(x).__name__)
    c = x.core
    if c.rank != 2:
        return v.fail(name + ": image", "rank %d" % c.rank)
    v.eq(name + ": rows", T.subst(c.shape[0], m), f.ny)
    v.eq(name + ": columns", T.subst(c.shape[1], m), f.nx)
    i, j = v.idx("i_frame", f.ny), v.idx("j_frame", f.nx)
    got = T.subst(c.at(i, j), m)
    v.true(name + ": boolean frame", got.sort == "B")
    if got.sort == "B":
        v.eq(name + ": image", got, f.all.at(k, i, j))


def shown(prog, n, rounds=2):
    """slots shown by the sequencer program with the image count n, one per trigger, in its first rounds; None if it does not fit"""
    out, mem, steps = [], [None], [0]
    waited = [True]

    def number(x, env):
        if isinstance(x, PyNum):
            t = T.subst(val(x), env)
            return int(t.val) if T.is_num(t) else None
        if getattr(x, "n", None) == "reg0":
            return n
        return x if isinstance(x, int) else None

    def block(k, env, depth):
        while k < len(prog):
            o = prog[k]
            if o[0] in ("loop_begin", "range_begin"):
                end, d = k + 1, 1
                while d:
                    d += {"loop_begin": 1, "range_begin": 1, "loop_end": -1, "range_end": -1}.get(prog[end][0], 0)
                    end += 1
                if o[0] == "loop_begin":
                    for _ in range(rounds):
                        block(k + 1, env, depth + 1)
                    return
                lo, hi = number(o[1], env), number(o[2], env)
                for q in range(lo, hi):
                    block(k + 1, {**env, val(o[3]): num(q)}, depth + 1)
                k = end
                continue
            if o[0] in ("loop_end", "range_end"):
                return
            if o[0] == "load_global":
                mem[0] = number(o[1], env)
            elif o[0] == "reset_global":
                out.append((mem[0], waited[0]))
                waited[0] = False
            elif o[0] == "trig":
                waited[0] = getattr(o[1], "n", None) == "TRIG_MODE_POSITIVE_EDGE"
            k += 1
    block(0, {}, 0)
    return out


def c31_initialize(v):
    "the sequencer program is loaded under reset with the sequencer stopped, and shows slots 0 .. N-1, one per trigger, over and over"
    v.package()
    c = controller(v, "lux", v.config.get("invert"))
    if v.config.get("again"):
        c.initialize()
        load(v, c, Frames(v, 2), v.config["again"])
        c.close()
    o = len(v.ctx.events)
    c.initialize()
    h = history(v, o)
    ls = positions(h, "load_sequence")
    v.true("one program", len(ls) == 1)
    if len(ls) != 1:
        return

    def state(cmd, upto):
        r = [onoff(e) for e in h[:upto] if e.is_("set_sequencer_state", cmd=cmd)]
        return r[-1] if r else None
    v.true("sequencer stopped", state("SEQ_CMD_RUN", ls[0]) is False)
    v.true("under reset", state("SEQ_CMD_RESET", ls[0]) is True)
    v.true("stopped throughout", all(onoff(e) is False for e in h if e.is_("set_sequencer_state", cmd="SEQ_CMD_RUN")))
    v.true("released", state("SEQ_CMD_RESET", len(h)) is False)
    p = h[ls[0]]["seq"]
    prog = getattr(p, "prog", None)
    v.true("a program", prog is not None)
    if prog is not None:
        for n in (1, 2, 3):
            s = shown(prog, n)
            v.true("shows slots 0..%d" % (n - 1), [a for a, _ in s] == list(range(n)) * 2)
            v.true("waits for a trigger between frames", all(w for _, w in s))


def c31_trigger(v):
    "a software trigger is one on/off pulse"
    v.package()
    c = controller(v, "lux")
    c.initialize()
    o = len(v.ctx.events)
    c.fire_software_trigger()
    h = history(v, o)
    v.true("pulse", len(h) == 2 and h[0].is_("set_software_sync", level=1) and h[1].is_("set_software_sync", level=0))


def c31_open(v):
    "the connection is opened to the given address, with the given inversion"
    v.package()
    inv = v.bool("invert")
    controller(v, "lux", inv)
    h = v.ctx.events
    v.true("one connection", len(h) == 1 and h[0][1] == "open" and h[0][2][:1] == ("192.168.0.10",))
    a, k = h[0][2], h[0][3]
    v.true("inversion", T.eq(tm(k.get("inverse", a[1] if len(a) > 1 else False)), inv.t))


B4 = ([], ["single"], ["multiple"], ["multiple", "single"], ["single", "multiple"], ["multiple", "reopen"], ["single", "reopen"],
      ["multiple", "single", "multiple", "reopen"], ["reopen", "multiple", "reopen", "single"])
FAILED = [{"first": a, "load": b} for a in ("single", "multiple") for b in ("single", "multiple")]
P = [{"prec": 32}]


def one(*cfgs):
    return [dict(c, prec=32) for c in cfgs]


CONTRACTS = {
    "C29": [Contract("before", c29_before, one(*[{"kind": k} for k in KINDS], *[{"kind": k, "N": 2, "invert": True} for k in KINDS])),
            Contract("after", c29_after, one(*[{"kind": k} for k in KINDS], *[{"kind": k, "N": 2} for k in KINDS])),
            Contract("failed", c29_failed, one({"kind": "alp"}, {"kind": "alp", "invert": True}, {"kind": "lux"}, {"kind": "lux", "invert": True}))],
    "C30": [Contract("load", c30_load, one(*[{"load": "multiple", "before": b} for b in B4], *[{"load": "single", "before": b} for b in B4],
                                           {"load": "multiple", "before": [], "N": 1}, {"load": "multiple", "before": ["multiple"], "N": 3},
                                           {"load": "multiple", "before": [], "N": 2, "invert": True},
                                           {"load": "single", "before": ["multiple"], "N": 1, "invert": True})),
            Contract("initialize", c30_initialize, one({"invert": "sym"}, {"invert": True}, {"invert": False}, {"invert": 1}, {"invert": None},
                                                       {"invert": True, "again": "multiple"}, {"invert": False, "again": "single"}, {"invert": "sym", "again": "single"})),
            Contract("failed", c30_failed, one(*FAILED))],
    "C31": [Contract("load", c31_load, one(*[{"load": "multiple", "before": b} for b in B4], *[{"load": "single", "before": b} for b in B4],
                                           {"load": "multiple", "N": 1}, {"load": "multiple", "N": 3}, {"load": "single", "N": 1, "invert": True})),
            Contract("initialize", c31_initialize, one({}, {"invert": True}, {"again": "multiple"}, {"again": "single"})), Contract("trigger", c31_trigger, P),
            Contract("failed", c31_failed, one(*FAILED)),
            Contract("open", c31_open, P)],
}

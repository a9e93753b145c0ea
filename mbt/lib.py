"""Drives the real library through its public interface and records what it does.

A trace is a list of events.  Every event is one call or one driver event, with
everything the library did to the outside during it ("o")."""
import ctypes, os

TABS = ["coil", "din", "inreg", "hreg"]
READ_T = {10: "coil", 11: "din", 12: "hreg", 13: "inreg"}
WR_T = {14: "coil", 15: "hreg"}
EXC_T = {16: "coil", 17: "din", 18: "hreg", 19: "inreg"}


def crc16(bs):
    c = 0xFFFF
    for b in bs:
        c ^= b
        for _ in range(8):
            c = (c >> 1) ^ 0xA001 if c & 1 else c >> 1
    return c


def frame(bs):
    c = crc16(bs)
    return list(bs) + [c & 255, c >> 8]


def group_reads(items):
    """[(addr, val)] of one data kind and slave -> contiguous runs (modulo 2^16)."""
    addrs = [a for a, _ in items]
    s = set(addrs)
    if len(s) == len(addrs):
        starts = [a for a in addrs if (a - 1) % 65536 not in s]
        if len(starts) == 1:
            d = dict(items)
            a0 = starts[0]
            return [(a0, [d[(a0 + i) % 65536] for i in range(len(items))])]
    runs = []
    for a, v in items:
        if runs and (runs[-1][0] + len(runs[-1][1])) % 65536 == a:
            runs[-1][1].append(v)
        else:
            runs.append((a, [v]))
    return runs


class Lib:
    def __init__(self, so):
        self.L = ctypes.CDLL(so)
        self.n = ctypes.c_int32.in_dll(self.L, "shim_n")
        self.ovf = ctypes.c_int32.in_dll(self.L, "shim_overflow")
        self.log = (ctypes.c_int32 * (1 << 18)).in_dll(self.L, "shim_log")
        self.ev = []
        c = [self.L.shim_cfg(i) for i in range(7)]
        self.cfg = dict(N=c[0], T=c[1], R=c[2], coil=c[3], din=c[4], inreg=c[5], hreg=c[6])
        self.size = dict(coil=c[3], din=c[4], inreg=c[5], hreg=c[6])
        self.sink = None
        self.warm = 0             # transactions before the recorded part of a run
        self.open = ["", ""]      # silences the driver still has to report
        self.sent = [None, None]  # last frame transmitted by master, slave
        self.crossed = []         # what the other side did in the middle of calls
        self.dual = False         # look at the slave's data also after master calls
        self.tabs = {t: [-1] * self.size[t] for t in TABS}

    # -- reading the log
    def take(self):
        n = self.n.value
        a = self.log[:n] if n else []
        self.n.value = 0
        out, reads, stack = [], {}, []
        i = 0
        while i < n:
            k = a[i]
            base = 0
            if 30 <= k < 40:
                base, k = 30, k - 30
            if k in (1, 4):
                ln = a[i + 1]
                out.append(dict(k="tx" if k == 1 else "wire", s="s" if base else "m", b=a[i + 2:i + 2 + ln]))
                i += 2 + ln
            elif k in (2, 5):
                i += 1
            elif k == 3:
                out.append(dict(k="init", s="s" if base else "m", baud=a[i + 1], par=a[i + 2]))
                i += 3
            elif k in READ_T:
                key = (k, a[i + 1])
                if key not in reads:
                    reads[key] = []
                    out.append(key)
                reads[key].append((a[i + 2], a[i + 3]))
                i += 4
            elif k in WR_T:
                out.append(dict(k="wr", t=WR_T[k], id=a[i + 1], a=a[i + 2], q=a[i + 3]))
                i += 4
            elif k in EXC_T:
                out.append(dict(k="exc", t=EXC_T[k], id=a[i + 1], fc=a[i + 2], code=a[i + 3], a=a[i + 4], q=a[i + 5]))
                i += 6
            elif k in (20, 21):
                out.append(dict(k="to" if k == 20 else "ce", id=a[i + 1], fc=a[i + 2], a=a[i + 3], q=a[i + 4], kind=a[i + 5]))
                i += 6
            elif k == 6:
                out.append(dict(k="td", s="s" if base else "m"))
                i += 1
            elif k == 22:
                nv = a[i + 5]
                out.append(dict(k="req", fc=a[i + 1], a=a[i + 2], q=a[i + 3], id=a[i + 4], v=a[i + 6:i + 6 + nv], r=a[i + 6 + nv]))
                i += 7 + nv
            elif k == 23:
                nb = a[i + 3]
                out.append(dict(k="ln", s="m", e=("rx", "t15", "t35", "ferr", "txdone", "tick")[a[i + 1]], n=a[i + 2], b=a[i + 4:i + 4 + nb]))
                i += 4 + nb
            elif k == 40:
                out.append(dict(k="chg", t=(TABS + ["gone"])[a[i + 1]], a=a[i + 2], v=a[i + 3]))
                i += 4
            elif k == 50:                 # the other side, in the middle of this
                stack.append((out, reads))
                out, reads = [], {}
                i += 1
            elif k == 51:
                self.crossed.append(self.outputs(out, reads))
                out, reads = stack.pop()
                i += 1
            else:
                raise RuntimeError("bad log code %d" % k)
        return self.outputs(out, reads)

    def outputs(self, out, reads):
        res = []
        chg = []
        for o in out:
            if isinstance(o, tuple):
                for a0, vs in group_reads(reads[o]):
                    res.append(dict(k="rd", t=READ_T[o[0]], id=o[1], a=a0, v=vs))
            elif o["k"] == "chg":
                chg.append([o["t"], o["a"], o["v"]])
            else:
                res.append(o)
        if chg:
            res.append(dict(k="chg", c=chg))
        return res

    def rec(self, s, e, **kw):
        d = dict(s=s, e=e)
        d.update(kw)
        d["o"] = []
        self.ev.append(d)
        if self.sink:
            self.sink(d)          # before the call: survives a crash in it
        return d

    def done(self, d, diff=False):
        if diff or self.dual:
            self.L.shim_diff()
        d["o"] = self.take()
        for o in d["o"]:
            if o["k"] == "tx":
                self.sent[o["s"] == "s"] = o["b"]
            elif o["k"] == "ln":
                self.mark(0, o["e"])
        return d["o"]

    # -- master side
    def m_init(self, mode=0, baud=9600, par=1):
        d = self.rec("m", "init", mode=mode, baud=baud, par=par)
        self.L.shim_m_init(mode, baud, par)
        return self.done(d)

    def m_req(self, fc, adr, qty, id, vals=()):
        vals = list(vals)
        d = self.rec("m", "req", fc=fc, a=adr, q=qty, id=id, v=vals, r=-1)
        arr = (ctypes.c_int32 * max(1, len(vals)))(*vals)
        d["r"] = self.L.shim_m_req(fc, adr, qty, id, arr, len(vals))
        self.done(d)
        return d["r"]

    def nest(self, fc, adr, qty, id, vals=()):
        """the application issues this request from within its next callback"""
        arr = (ctypes.c_int32 * max(1, len(vals)))(*vals)
        self.L.shim_nest(fc, adr, qty, id, arr, len(vals))

    def within(self, ops, after=1):
        """line events that happen during the after-th callback from now"""
        flat = []
        for e, x in ops:
            k = ("rx", "t15", "t35", "ferr", "txdone", "tick").index(e)
            flat += [k, 0, len(x)] + list(x) if k == 0 else [k, x, 0]
        arr = (ctypes.c_int32 * max(1, len(flat)))(*flat)
        self.L.shim_within(arr, len(flat), after)

    def cross(self, where, port, evs, after):
        """recorded events of the other side that happen in the after-th callback (where 0) or send() (1) from now"""
        flat = []
        for ev in evs:
            k = ("rx", "t15", "t35", "ferr", "txdone", "tick", "poll").index(ev["e"])
            b = ev.get("b", [])
            flat += [k, ev.get("n", 0), len(b)] + list(b)
        arr = (ctypes.c_int32 * max(1, len(flat)))(*flat)
        self.crossed = []
        self.L.shim_cross(where, port, arr, len(flat), after)

    def resetting(self, p, on):
        """a driver whose initialisation forgets callbacks and receive buffer"""
        self.L.shim_resetting(p, 1 if on else 0)

    def probe(self, fn):
        """the result of fn(), found out in a process of its own"""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.write(w, b"%d" % fn())
            finally:
                os._exit(0)
        os.close(w)
        x = os.read(r, 64)
        os.close(r)
        os.waitpid(pid, 0)
        return int(x or -1)

    def m_warm(self, n, seed, baud, par):
        """initialises the master and lets it do n steps of one or more transactions, which end; the
        contract's state is then that after an initialisation.  If one of the steps looks unusual, the
        past ends before it, and what it consists of is returned: it is to be recorded, and judged."""
        self.L.shim_m_init(0, baud, par)
        odd = self.probe(lambda: self.L.shim_m_warm(n, seed))
        step = []
        if 0 <= odd < n:
            n = odd
            o = (ctypes.c_int32 * 128)()
            for r in range(self.L.shim_m_plan(seed, n, o)):
                p = o[16 * r:16 * r + 16]
                step.append(dict(how=p[0], fc=p[1], adr=p[2], qty=p[3], id=p[4], vals=p[6:6 + p[5]]))
        self.L.shim_m_warm(n, seed)
        self.n.value = 0
        d = self.rec("m", "init", mode=0, baud=baud, par=par)
        d["o"] = [dict(k="init", s="m", baud=baud, par=par)]
        return step

    def s_warm(self, id, n, seed, baud, par):
        self.L.shim_s_init(0, baud, par, id)
        odd = self.probe(lambda: self.L.shim_s_warm(n, seed, id))
        step = None
        if 0 <= odd < n:
            n = odd
            how = ctypes.c_int32()
            f = (ctypes.c_uint8 * 32)()
            m = self.L.shim_s_plan(seed, n, id, ctypes.byref(how), f)
            step = (how.value, list(f[:m]))
        self.L.shim_s_warm(n, seed, id)
        self.n.value = 0
        self.L.shim_diff()
        tabs = {t: list(v) for t, v in self.tabs.items()}
        for o in self.take():
            for t, a, v in o["c"]:
                tabs[t][a] = v
        self.tabs = tabs
        if self.sink:
            self.retab(tabs)
        d = self.rec("s", "init", mode=0, baud=baud, par=par, id=id)
        d["o"] = [dict(k="init", s="s", baud=baud, par=par)]
        return step

    def sync(self, p, on):
        self.L.shim_sync(p, 1 if on else 0)

    def m_poll(self, n=1):
        o = []
        for _ in range(n):
            d = self.rec("m", "poll")
            self.L.shim_m_poll()
            o += self.done(d)
        return o

    def idle(self, p, n):
        """n polls in a row; once nothing has happened in seven of them, only those in which something happens are
        recorded (the contract counts no more than four idle polls, so that any further one changes nothing)"""
        poll, one, calm = (self.m_poll, self.L.shim_m_poll, 0) if p == 0 else (self.s_poll, self.L.shim_s_poll, 0)
        o = []
        while n > 0:
            n -= 1
            if calm < 7 or self.dual:
                x = poll()
                o += x
                calm = 0 if x else calm + 1
                continue
            one()
            if p:
                self.L.shim_diff()
            if self.n.value:
                d = self.rec("ms"[p], "poll")
                o += self.done(d, p == 1)
                calm = 0
        return o

    def m_tick(self, n=1):
        if n > 0:
            d = self.rec("m", "tick", n=n)
            self.L.shim_m_tick(n)
            self.done(d)

    # -- slave side
    def s_init(self, id, mode=0, baud=9600, par=1):
        d = self.rec("s", "init", mode=mode, baud=baud, par=par, id=id)
        self.L.shim_s_init(mode, baud, par, id)
        return self.done(d, True)

    def s_poll(self, n=1):
        o = []
        for _ in range(n):
            d = self.rec("s", "poll")
            self.L.shim_s_poll()
            o += self.done(d, True)
        return o

    def reg(self, t, adr, on=1):
        """registers (or unregisters) application data for one item; before the trace starts or in it"""
        self.L.shim_reg(TABS.index(t), adr, on)

    def setup_tables(self, tabs):
        """tabs: {t: [value or -1]} - initial registration, recorded in the trace header"""
        self.tabs = {t: list(v) for t, v in tabs.items()}
        for t in TABS:
            for i, v in enumerate(tabs[t]):
                self.reg(t, i, 1)
                self.L.shim_set(TABS.index(t), i, max(v, 0))
                if v < 0:
                    self.reg(t, i, 0)
        self.take()

    def app(self, t, adr, v, new=False):
        """the application changes one of its own values (-1: takes the item away; new: another variable from now on)"""
        d = self.rec("s", "app", t=t, a=adr, v=v)
        if new:
            d["new"] = 1
        if v < 0:
            self.reg(t, adr, 0)
        else:
            self.reg(t, adr, 2 if new else 1)
            self.L.shim_set(TABS.index(t), adr, v)
        self.done(d, True)

    # -- line events, p = 0 master port, 1 slave port
    def rx(self, p, bs):
        d = self.rec("ms"[p], "rx", b=list(bs))
        a = (ctypes.c_uint8 * max(1, len(bs)))(*bs)
        n = self.L.shim_rx(p, a, len(bs))
        d["n"] = n
        self.open[p] = "both"
        self.done(d, p == 1)

    def mark(self, p, name):
        if name in ("ferr", "rx"):
            self.open[p] = "both"
        elif name == "t15":
            self.open[p] = "t35"
        elif name == "t35" and self.open[p] != "both":
            self.open[p] = ""

    def _fire(self, p, name):
        d = self.rec("ms"[p], name)
        self.mark(p, name)
        getattr(self.L, "shim_" + name)(p)
        return self.done(d, p == 1)

    def t15(self, p):
        return self._fire(p, "t15")

    def t35(self, p):
        return self._fire(p, "t35")

    def ferr(self, p):
        return self._fire(p, "ferr")

    def txdone(self, p, dup=False):
        """transmission done (dup: reported even if nothing is being transmitted)"""
        if dup or self.L.shim_tx_pending(p) > 0:
            self._fire(p, "txdone")
            return True
        return False

    def pending(self, p):
        return self.L.shim_tx_pending(p) > 0

    def quiet(self, p):
        """the silences that a real driver reports once nothing arrives any more"""
        if self.open[p] == "both":
            self.t15(p)
        if self.open[p]:
            self.t35(p)

    def connect(self, clean=False):
        """the two ports are wired to each other from now on (clean: nothing gets lost)"""
        self.rec("x", "connect", clean=clean)

    def end(self):
        d = self.rec("x", "end")
        d["o"] = []

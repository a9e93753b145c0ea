"""Replays behaviours of the specification on the real code.

A tour (tools/mktours.py) is a set of walks through the transition graph of MasterMC or
SlaveMC that together take every transition.  Each walk is replayed in a fresh process and
what the code does is compared with what the model does.  As TLC has shown that the model
satisfies the contract, so does every run that agrees with it; a run that differs is recorded
and judged by the contract itself, together with a few continuations of it."""
import ctypes, json, lzma, mmap, os, signal
from .lib import Lib, TABS

DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "tours")
KEEP = {"tx", "rd", "wr", "exc", "to", "ce", "chg"}


def load(name):
    return json.loads(lzma.decompress(open(os.path.join(DIR, name + ".xz"), "rb").read()))


def variant(t):
    """the build configuration a tour needs"""
    if t["module"] != "SlaveTour":
        c = t["cfg"]
        return "mc_%d_%d_%d" % (c["N"], c["T"], c["R"])
    return "mc_1_2_1"


def canon(o):
    if o["k"] == "tx":
        return ("tx", tuple(o["b"]))
    if o["k"] == "chg":
        return ("chg",) + tuple(sorted((c[0], c[1], c[2]) for c in o["c"]))
    return tuple(sorted((k, tuple(v) if isinstance(v, list) else v) for k, v in o.items()))


def cset(os_):
    # (results of requests made from within callbacks come last)
    return [canon(o) for o in os_ if o["k"] in KEEP] + [("req", o["r"]) for o in os_ if o["k"] == "req"]


def begin(lib, t):
    if t["module"] == "MasterTour":
        if t["cfg"].get("sync"):
            lib.sync(0, 1)
        lib.m_init(0, 9600, 0)
    elif t["module"] == "SystemTour":
        lib.m_init(0, 9600, 0)
        lib.setup_tables({k: t["cfg"]["tabs"][k] for k in TABS})
        lib.s_init(t["cfg"]["id"], 0, 9600, 0)
        lib.dual = True
        lib.connect(t["cfg"]["clean"])
    else:
        if t["cfg"].get("sync"):
            lib.sync(1, 1)
        lib.setup_tables({k: t["cfg"]["tabs"][k] for k in TABS})
        lib.s_init(t["cfg"]["id"], 0, 9600, 0)


def do(lib, ev):
    """performs one event of the model on the code"""
    e, p = ev["e"], 0 if ev["s"] == "m" else 1
    if "nst" in ev:
        n = ev["nst"]
        lib.nest(n["fc"], n["a"], n["q"], n["id"], n["v"])
    if e == "poll":
        lib.m_poll() if p == 0 else lib.s_poll()
    elif e == "tick":
        lib.m_tick(ev["n"])
    elif e == "rx":
        lib.rx(p, ev["b"])
    elif e in ("t15", "t35", "ferr"):
        getattr(lib, e)(p)
    elif e == "txdone":
        lib.txdone(p, dup=True)
    elif e == "req":
        lib.m_req(ev["fc"], ev["a"], ev["q"], ev["id"], ev["v"])
    elif e == "init":
        if p == 0:
            lib.m_init(ev["mode"], ev["baud"], ev["par"])
        else:
            lib.s_init(ev["id"], ev["mode"], ev["baud"], ev["par"])
    elif e == "app":
        lib.app(ev["t"], ev["a"], ev["v"])
    return True


def walk(lib, t, outs, w, stop=True, sink=None):
    """-> number of the first step at which the code does something else than the model, or -1"""
    begin(lib, t)
    evs = t["evs"]
    dev = -1
    for i in range(0, len(w), 2):
        ev = evs[ord(w[i]) - 48]
        if not do(lib, ev):
            return i // 2 if dev < 0 else dev
        d = lib.ev[-1]
        want, r = outs[ord(w[i + 1]) - 48]
        if dev < 0 and ((d["o"] or want) and cset(d["o"]) != want or (ev["e"] == "req" and d["r"] != r)):
            dev = i // 2
            if stop:
                return dev
        if stop and len(lib.ev) > 64:
            del lib.ev[:32]
    return dev


class Snapshot:
    """the library's memory as it was after loading, to start each walk like a fresh process"""

    def __init__(self, so, lib):
        skip = (ctypes.addressof(lib.log), ctypes.sizeof(lib.log))
        base = os.path.realpath(so)
        ranges, last = [], None
        for l in open("/proc/self/maps"):
            f = l.split()
            a, b = (int(x, 16) for x in f[0].split("-"))
            name = f[5] if len(f) > 5 else ""
            if name == base:
                if "w" in f[1]:
                    ranges.append((a, b))
                last = b
            elif not name and a == last and "w" in f[1]:
                ranges.append((a, b))        # .bss
                last = None
            else:
                last = None
        self.save = []
        for a, b in ranges:
            cuts = [(a, b)] if not (a < skip[0] + skip[1] and skip[0] < b) else [(a, max(a, skip[0])), (min(b, skip[0] + skip[1]), b)]
            for x, y in cuts:
                if y > x:
                    self.save.append((x, ctypes.string_at(x, y - x), y - x))

    def restore(self):
        for a, d, n in self.save:
            ctypes.memmove(a, d, n)


def worker(so, t, outs, idx, pos, w, limit):
    """replays walks idx[pos...]; reports on w, keeps the position in shared memory"""
    lib = Lib(so)
    snap = Snapshot(so, lib)
    found = steps = 0
    while pos[0] < len(idx) and found < limit:
        j = idx[pos[0]]
        wk = t["walks"][j]
        steps += len(wk) // 2
        snap.restore()
        lib.ev = []
        lib.n.value = 0
        signal.setitimer(signal.ITIMER_REAL, 10)
        d = walk(lib, t, outs, wk)
        if d >= 0:
            found += 1
            os.write(w, ("%d %d\n" % (j, d)).encode())
        pos[0] += 1
    os.write(w, ("S %d\n" % steps).encode())


def replay(so, t, idx, workers, limit=40):
    """-> (steps replayed, [(walk index, step)])  step -2: crash or hang"""
    outs = [(cset(o["o"]), o["r"]) for o in t["outs"]]
    sup = []
    for k in range(workers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:        # supervises one worker after the other
            os.close(r)
            mine = idx[k::workers]
            pos = mmap.mmap(-1, 8)
            pos = memoryview(pos).cast("q")
            code = 0
            crashes = 0
            while pos[0] < len(mine) and crashes < 5:
                c = os.fork()
                if c == 0:
                    try:
                        worker(so, t, outs, mine, pos, w, limit)
                        os._exit(0)
                    except BaseException:
                        import traceback
                        traceback.print_exc()
                        os._exit(3)
                _, st = os.waitpid(c, 0)
                if st == 0:
                    break
                if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 3:
                    code = 1
                    break
                os.write(w, ("%d -2\n" % mine[pos[0]]).encode())
                pos[0] += 1
                crashes += 1
            os._exit(code)
        os.close(w)
        sup.append((pid, r))
    devs, steps, ok = [], 0, True
    for pid, r in sup:
        buf = b""
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            buf += b
        os.close(r)
        _, st = os.waitpid(pid, 0)
        ok = ok and st == 0
        for l in buf.decode().split("\n"):
            f = l.split()
            if len(f) == 2:
                if f[0] == "S":
                    steps += int(f[1])
                else:
                    devs.append((int(f[0]), int(f[1])))
    if not ok:
        raise RuntimeError("replaying a tour failed")
    return steps, sorted(devs)


CONT = 5


def continuation(lib, t, k):
    """what follows after a deviation"""
    if t["module"] == "SystemTour":
        return together(lib, t, k)
    p = 0 if t["module"] == "MasterTour" else 1
    poll = lib.m_poll if p == 0 else lib.s_poll
    T = lib.cfg["T"]
    if k == 1:
        poll(8)
    elif k == 2:
        lib.t15(p)
        lib.t35(p)
        poll(8)
        if p == 0:
            lib.m_tick(T)
            poll(8)
    elif k in (3, 4):
        for _ in range((lib.cfg["N"] + 1) * (lib.cfg["R"] + 2)):
            lib.txdone(p)
            if k == 4:
                lib.quiet(p)
            else:
                lib.t15(p)
                lib.t35(p)
            poll(8)
            lib.txdone(p)
            poll(1)
            if p == 0:
                lib.m_tick(T)
            poll(8)
        lib.end()


def together(lib, t, k):
    """... when master and slave are connected: what is transmitted arrives, undamaged"""
    if k == 0:
        return
    for _ in range(2 if k < 3 else 8):
        for p, poll in ((0, lib.m_poll), (1, lib.s_poll)):
            poll(6)
            if lib.pending(p):
                f = lib.sent[p]
                lib.txdone(p)
                poll(2)
                q = 1 - p
                lib.rx(q, f)
                lib.t15(q)
                (lib.m_poll if q == 0 else lib.s_poll)(k % 2)
                lib.t35(q)
        lib.m_poll(6)
        if k == 2 or k == 4:
            if not lib.pending(0) and not lib.pending(1):
                lib.m_tick(lib.cfg["T"])
                lib.m_poll(6)


def record(lib, name, j, step, k):
    """generator body for run.drive: walk j of a tour again, up to the deviation (k > 0) or in full"""
    t = load(name) if isinstance(name, str) else name
    outs = [(cset(o["o"]), o["r"]) for o in t["outs"]]
    w = t["walks"][j]
    if k and step >= 0:
        w = w[:2 * (step + 1)]
    walk(lib, t, outs, w, stop=False)
    continuation(lib, t, k)

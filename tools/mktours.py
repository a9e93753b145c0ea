#!/usr/bin/env python3
"""Model behaviours for replay on the real code.

TLC explores MasterMC/SlaveMC for the configurations below and prints every transition
(MasterTour/SlaveTour); from that graph this computes walks from the initial state that
together go through every transition at least once, with the outputs the model makes.
The result is committed (spec/tours/*.xz), because it depends on the specification only.

  tools/mktours.py [name ...]"""
import collections, json, lzma, os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from mbt import run, tour

M = dict(Mut='"none"', K=4)
CONFIGS = {
    # name: (module, constants, quick?)
    "m1": ("MasterTour", dict(N=1, T=2, Rr=1, MaxSeg=6, Budget=2, Inits="FALSE", RxSet=["good", "badcrc", "foreign"], ReqSet=["A", "X"])),
    "m2": ("MasterTour", dict(N=2, T=2, Rr=0, MaxSeg=6, Budget=2, Inits="FALSE", RxSet=["good", "exc"], ReqSet=["A", "X"])),
    "m3": ("MasterTour", dict(N=1, T=2, Rr=1, MaxSeg=8, Budget=3, Inits="FALSE", RxSet=["goodB", "misfit"], ReqSet=["B"])),
    "m4": ("MasterTour", dict(N=1, T=2, Rr=0, MaxSeg=6, Budget=3, Inits="TRUE", RxSet=["good"], ReqSet=["A"])),
    "m5": ("MasterTour", dict(N=1, T=2, Rr=1, MaxSeg=12, Budget=4, Inits="FALSE", RxSet=["good", "foreign"], ReqSet=["A"])),
    "m6": ("MasterTour", dict(N=1, T=2, Rr=0, MaxSeg=6, Budget=6, Inits="FALSE", RxSet=["half1", "half2", "good"], ReqSet=["A"])),
    "m7": ("MasterTour", dict(N=2, T=3, Rr=1, MaxSeg=6, Budget=2, Inits="FALSE", RxSet=["good", "badcrc"], ReqSet=["A", "B", "X"])),
    "m8": ("MasterTour", dict(N=3, T=2, Rr=0, MaxSeg=6, Budget=1, Inits="TRUE", RxSet=["good", "exc"], ReqSet=["A", "B", "X"])),
    "m9": ("MasterTour", dict(N=2, T=2, Rr=1, MaxSeg=6, Budget=2, Inits="FALSE", Nest="TRUE", RxSet=["good"], ReqSet=["A", "X"])),
    "ma": ("MasterTour", dict(N=1, T=2, Rr=1, MaxSeg=6, Budget=3, Inits="FALSE", Sync="TRUE", RxSet=["good", "badcrc", "foreign"], ReqSet=["A"])),
    "mb": ("MasterTour", dict(N=2, T=2, Rr=0, MaxSeg=6, Budget=2, Inits="FALSE", Sync="TRUE", Nest="TRUE", RxSet=["good", "exc"], ReqSet=["A", "B"])),
    "mc": ("MasterTour", dict(N=1, T=2, Rr=1, MaxSeg=6, Budget=3, Inits="TRUE", RxSet=["good", "badcrc", "dup"], ReqSet=["A"])),
    "s1": ("SlaveTour", dict(MaxSeg=10, Budget=3, Inits="FALSE", RxSet=["wR", "badcrc", "foreign", "short"], AppSet=[])),
    "s2": ("SlaveTour", dict(MaxSeg=8, Budget=3, Inits="FALSE", AppSet=["a2"],
           RxSet=["rdC", "rdCmiss", "rdCover", "unk", "rdH0"])),
    "s5": ("SlaveTour", dict(MaxSeg=13, Budget=3, Inits="FALSE", AppSet=["a1"],
           RxSet=["rdH", "rdI", "rdD", "wMR", "wMRbc"])),
    "s6": ("SlaveTour", dict(MaxSeg=13, Budget=3, Inits="FALSE", AppSet=[],
           RxSet=["wC", "wCbad", "wRover", "wMC", "wMCmiss", "over", "bcast"])),
    "s3": ("SlaveTour", dict(MaxSeg=9, Budget=5, Inits="TRUE", RxSet=["wR", "byte"], AppSet=[])),
    "s4": ("SlaveTour", dict(MaxSeg=16, Budget=4, Inits="FALSE", RxSet=["wR", "h1", "h2"], AppSet=[])),
    "s7": ("SlaveTour", dict(MaxSeg=9, Budget=5, Inits="FALSE", Sync="TRUE", RxSet=["wR", "badcrc", "rdC"], AppSet=[])),
    "s8": ("SlaveTour", dict(MaxSeg=9, Budget=4, Inits="TRUE", RxSet=["wR", "badcrc", "dup"], AppSet=[])),
    "y1": ("SystemTour", dict(N=1, T=2, Rr=1, Timely="TRUE", MaxReq=2, MaxLoss=0, MaxApp=1, Faults=["none"],
           ReqSet=["rd", "over", "miss", "rdC", "wr", "wrs", "wrC", "wover", "bad"])),
    "y2": ("SystemTour", dict(N=1, T=2, Rr=1, Timely="TRUE", MaxReq=2, MaxLoss=2, MaxApp=0, Faults=["none", "lost", "crc", "cut", "ferr", "tail"],
           ReqSet=["rd", "wr"])),
    "y3": ("SystemTour", dict(N=2, T=2, Rr=1, Timely="TRUE", MaxReq=2, MaxLoss=1, MaxApp=1, Faults=["none", "lost", "crc", "ferr"],
           ReqSet=["rd", "over", "wr", "wrs", "other"])),
}


def explore(name):
    mod, c = CONFIGS[name]
    consts = dict(M)
    if mod == "MasterTour":
        consts.update(Sync="FALSE", Nest="FALSE")
    elif mod == "SlaveTour":
        consts.update(Sync="FALSE")
    consts.update(c)
    cfg = "CONSTANTS\n"
    for k, v in consts.items():
        if isinstance(v, list):
            v = "{" + ", ".join('"%s"' % x for x in v) + "}"
        cfg += "%s = %s\n" % (k, v)
    inv = {"M": "NoBad Structure Agree", "S": "NoBad Structure Agree ReadOnly", "Y": "NoBad Agree HalfDuplex"}["Y" if mod[:2] == "Sy" else mod[0]]
    cfg += "INIT TInit\nNEXT TNext\nVIEW View\n" + ("" if mod == "SystemTour" else "CONSTRAINT Bound\n") + "INVARIANTS %s\nCHECK_DEADLOCK FALSE\n" % inv
    path = "/tmp/tour.%s.cfg" % name
    open(path, "w").write(cfg)
    p = run.tlc(mod, path, {}, "/tmp/tour.%s.meta" % name, timeout=3000, heap="16g")
    if p.returncode:
        sys.exit(p.stdout[-3000:])
    return p.stdout


def build(name):
    out = explore(name)
    st = run.stats(out)
    nodes, evs, outs = {}, {}, {}
    edges = collections.defaultdict(set)
    start = head = None

    def nid(s):
        return nodes.setdefault(s, len(nodes))
    vre = re.compile(r'<<-?\d+, -?\d+, -?\d+>>')
    for l in out.splitlines():
        if l.startswith('"<<\\"E\\"'):
            l = l[1:-1].replace('\\"', '"')
            vs = vre.findall(l)
            a, b = nid(vs[0]), nid(vs[-1])
            body = l[l.index(vs[0]) + len(vs[0]) + 2:-(len(vs[-1]) + 4)]
            i = body.index("], [") + 1
            ev, o = body[:i], body[i + 2:]
            edges[a].add((ev, o, b))     # (what the line does is not part of the event)
        elif l.startswith('"<<\\"I\\"'):
            l = l[1:-1].replace('\\"', '"')
            v = vre.search(l).group(0)
            start = nid(v)
            head = run.value(l[l.index(v) + len(v) + 2:-2])
    # canonical order, so that the result does not depend on the order TLC explored in
    g = {}
    keys = sorted({k[:2] for e in edges.values() for k in e})
    evl = sorted({k[0] for k in keys})
    oul = sorted({k[1] for k in keys})
    ei = {e: i for i, e in enumerate(evl)}
    oi = {e: i for i, e in enumerate(oul)}
    for a, e in edges.items():
        g[a] = sorted((ei[k[0]], oi[k[1]], k[2]) for k in e)
    total = sum(len(v) for v in g.values())
    walks = cover(g, start)
    ok = run.value
    data = dict(name=name, cfg=head, module=CONFIGS[name][0], states=st[1], edges=total, evs=[clean(ok(e)) for e in evl],
                outs=[ok(o) for o in oul], walks=["".join(chr(48 + e) + chr(48 + o) for e, o in w) for w in walks])
    os.makedirs(tour.DIR, exist_ok=True)
    raw = json.dumps(data, sort_keys=True, ensure_ascii=False).encode()
    with open(os.path.join(tour.DIR, name + ".xz"), "wb") as f:
        f.write(lzma.compress(raw, preset=9))
    print(name, "states", st[1], "edges", total, "walks", len(walks), "steps", sum(map(len, walks)),
          "size", os.path.getsize(os.path.join(tour.DIR, name + ".xz")), flush=True)


def clean(ev):
    ev.pop("o", None)
    return ev


def cover(g, start, maxlen=240):
    # tree of shortest paths from the start
    todo = {a: list(reversed(es)) for a, es in g.items() if es}
    left = sum(len(v) for v in todo.values())
    parent = {start: None}
    q = collections.deque([start])
    order = []
    while q:
        a = q.popleft()
        order.append(a)
        for e, o, b in g.get(a, ()):
            if b not in parent:
                parent[b] = (a, e, o)
                q.append(b)

    def path(a):
        r = []
        while parent[a]:
            p, e, o = parent[a]
            r.append((e, o))
            a = p
        return r[::-1]
    walks = []
    oidx = 0
    while left:
        # the nearest state to the start that still has transitions to take
        while oidx < len(order) and not todo.get(order[oidx]):
            oidx += 1
        if oidx == len(order):
            break
        cur = order[oidx]
        w = path(cur)
        while len(w) < maxlen:
            t = todo.get(cur)
            if t:
                # self loops first: they cost one step
                k = next((i for i in range(len(t) - 1, -1, -1) if t[i][2] == cur), None)
                e, o, b = t.pop(k) if k is not None else t.pop()
                left -= 1
                w.append((e, o))
                cur = b
                continue
            # nearest state with something left to do, within a few hundred states
            seen = {cur: None}
            dq = collections.deque([cur])
            hit = None
            while dq and len(seen) < 600:
                a = dq.popleft()
                for e, o, b in g.get(a, ()):
                    if b not in seen:
                        seen[b] = (a, e, o)
                        if todo.get(b):
                            hit = b
                            break
                        dq.append(b)
                if hit is not None:
                    break
            if hit is None:
                break
            r = []
            a = hit
            while seen[a]:
                p, e, o = seen[a]
                r.append((e, o))
                a = p
            if len(w) + len(r) >= maxlen:
                break
            w += r[::-1]
            cur = hit
        walks.append(w)
    return walks


for n in (sys.argv[1:] or list(CONFIGS)):
    build(n)

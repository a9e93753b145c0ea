"""Pairs of runs that must not differ (TwinTrace.tla): initialisation from anywhere (M17, S10)
and the two sides in one program (X03)."""
import json, os, random
from . import gen, run
from .lib import Lib, TABS

BUSY_M = ["m_noise", "m_chaos", "m_repeat", "m_refused", "m_limits", "m_misfit", "m_reuse", "m_foreign", "m_long", "m_timeout", "m_reinit"]
BUSY_S = ["s_noise", "s_chaos", "s_tx", "s_bad", "s_short", "s_long", "s_exc", "s_write", "s_reinit"]
NEXT_M = ["m_clean", "m_answers", "m_repeat", "m_exc", "m_timeout", "m_refused", "m_noise", "m_misfit"]
NEXT_S = ["s_clean", "s_exc", "s_write", "s_read", "s_bad", "s_short", "s_noise", "s_tx"]


def perform(lib, ev, id=None):
    """a recorded call or line event again"""
    e, p = ev["e"], "ms".index(ev["s"]) if ev["s"] in "ms" else 0
    if e == "init":
        if p == 0:
            lib.m_init(ev["mode"], ev["baud"], ev["par"])
        else:
            lib.s_init(ev["id"], ev["mode"], ev["baud"], ev["par"])
    elif e == "poll":
        lib.m_poll() if p == 0 else lib.s_poll()
    elif e == "req":
        lib.m_req(ev["fc"], ev["a"], ev["q"], ev["id"], ev["v"])
    elif e == "tick":
        lib.m_tick(ev["n"])
    elif e == "rx":
        lib.rx(p, ev["b"])
    elif e in ("t15", "t35", "ferr", "txdone"):
        lib._fire(p, e)
    elif e == "app":
        lib.app(ev["t"], ev["a"], ev["v"], ev.get("new"))
    elif e == "sync":
        lib.sync(p, ev["on"])


def solo(so, job, tmp):
    return json.loads(run.one(so, job, tmp))


def useful(t):
    return [e for e in t["ev"] if e["s"] in "ms" and e["e"] not in ("end", "crash")]


def script_run(so, script, tabs, tmp):
    """performs a list of events in a fresh process -> its record (shorter if it crashes)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        import signal
        code = 0
        try:
            os.close(r)
            signal.alarm(20)
            lib = Lib(so)
            if tabs:
                lib.setup_tables(tabs)
            out = os.fdopen(w, "wb")
            n = 0
            for e in script:
                k = len(lib.ev)
                inner = e.get("cross")
                if inner:
                    lib.cross(inner["where"], "ms".index(e["s"]), inner["evs"], inner["after"])
                perform(lib, e)
                if len(lib.ev) == k:      # nothing was called (no ticks)
                    lib.ev.append(dict(s=e["s"], e=e["e"], o=[], r=0))
                if inner:
                    lib.cross(0, 0, [], 0) if not lib.crossed else None
                    for j, c in enumerate(inner["evs"]):
                        if lib.crossed:
                            lib.ev.append(dict(c, o=lib.crossed[j]))
                        else:             # there was no such callback: afterwards
                            n = len(lib.ev)
                            perform(lib, c)
                            if len(lib.ev) == n:
                                lib.ev.append(dict(s=c["s"], e=c["e"], o=[], r=0))
                for d in lib.ev[k:]:
                    out.write((json.dumps(d, separators=(",", ":")) + "\n").encode())
                out.flush()
        except BaseException:
            import traceback
            traceback.print_exc()
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 3:
        raise RuntimeError("script failed")
    return [json.loads(l) for l in data.splitlines()]


def app_script(tabs, cur):
    """application calls that bring the slave's data to cur"""
    return [dict(s="s", e="app", t=t, a=i, v=v) for t in TABS for i, v in enumerate(cur[t]) if tabs[t][i] != v]


def pair_reinit(rng, sos, side, seed, tmp):
    """history h, then a run from its initialisation; the same run alone"""
    v = rng.choice(list(sos))
    so = sos[v]
    if side == "m":
        h = solo(so, (v, rng.choice(BUSY_M), "%s-h" % seed), tmp)
        c = solo(so, (v, rng.choice(NEXT_M), "%s-c" % seed), tmp)
        he, ce = useful(h), useful(c)
        k = rng.randrange(1, len(he) + 1)
        he = he[:k]
        # a partial reception goes on after the initialisation: end it first
        tail = [dict(s="m", e="init", mode=0, baud=9600, par=1)] if rng.random() < 0.3 else []
        script = he + tail + ce
        b = script_run(so, ce, None, tmp)
        a = script_run(so, script, None, tmp)
        off = len(he) + len(tail)
        return dict(a=a, b=b, map=[off + i + 1 for i in range(len(ce))], script=script, solo=ce, variant=v, tabs=None)
    h = solo(so, (v, rng.choice(BUSY_S), "%s-h" % seed), tmp)
    c = solo(so, (v, rng.choice(NEXT_S), "%s-c" % seed), tmp)
    he, ce = useful(h), useful(c)
    he = he[:rng.randrange(1, len(he) + 1)]
    # run A starts with h's data; before the initialisation the application sets c's data
    a0 = script_run(so, he, h["cfg"]["tabs"], tmp)
    cur = {t: list(h["cfg"]["tabs"][t]) for t in TABS}
    for e in a0:
        if e["e"] == "app":
            cur[e["t"]][e["a"]] = e["v"]
        for o in e["o"]:
            if o["k"] == "chg":
                for t, i, x in o["c"]:
                    cur[t][i] = x
    script = he + app_script(cur, c["cfg"]["tabs"]) + ce
    a = script_run(so, script, h["cfg"]["tabs"], tmp)
    b = script_run(so, ce, c["cfg"]["tabs"], tmp)
    off = len(script) - len(ce)
    return dict(a=a, b=b, map=[off + i + 1 for i in range(len(ce))], script=script, solo=ce, variant=v, tabs=h["cfg"]["tabs"])


def mirrored(rng, me):
    """the master's run with a slave that hears what the master receives, at about the same time"""
    ids = [e["b"][0] for e in me if e["e"] == "rx" and e["b"]]
    sid = rng.choice(ids) if ids else 1
    script = [dict(s="s", e="init", id=sid, mode=0, baud=9600, par=0), dict(s="s", e="poll")]
    late = rng.random() < 0.5
    wait = []
    for e in me:
        c = dict(e, s="s") if e["e"] in ("rx", "t15", "t35", "ferr", "poll") else None
        if c and not late and rng.random() < 0.5:
            script += [c, e]
            continue
        script.append(e)
        if c:
            if late:
                wait.append(c)
                if e["e"] == "t35":
                    script += wait + [dict(s="s", e="poll")] * 3 + [dict(s="s", e="txdone"), dict(s="s", e="poll")]
                    wait = []
            else:
                script.append(c)
        if e["e"] == "t35" and not late:
            script += [dict(s="s", e="poll")] * 3 + [dict(s="s", e="txdone"), dict(s="s", e="poll")]
    return script


INNER = ("rx", "t15", "t35", "ferr", "txdone", "tick", "poll")


def crossed(rng, me, se):
    """an interleaving in which events of one side happen in the middle of calls of the other"""
    script, maps, at, q = [], ([], []), [0, 0], (me, se)
    n = 0
    dense = rng.random() < 0.5
    while at[0] < len(me) or at[1] < len(se):
        x = 0 if at[1] >= len(se) or (at[0] < len(me) and rng.random() < len(me) / (len(me) + len(se))) else 1
        e = q[x][at[x]]
        at[x] += 1
        n += 1
        maps[x].append(n)
        calls = [o for o in e["o"] if o["k"] in ("rd", "wr", "exc", "to", "ce")]
        where = 0 if calls else 1 if any(o["k"] == "tx" for o in e["o"]) else None
        y, evs = 1 - x, []
        if where is not None and rng.random() < (0.9 if dense else 0.4):
            k = rng.choice([1, 3, 6, 12, 20])
            if rng.random() < 0.6:    # up to where the other side does something
                t = at[y]
                while t < len(q[y]) and t < at[y] + 40 and not q[y][t]["o"]:
                    t += 1
                k = t + 1 - at[y]
            while len(evs) < k and at[y] < len(q[y]) and q[y][at[y]]["e"] in INNER:
                evs.append(q[y][at[y]])
                at[y] += 1
                n += 1
                maps[y].append(n)
        if evs:
            many = sum(len(o["v"]) if o["k"] == "rd" else 1 for o in calls)
            e = dict(e, cross=dict(where=where, after=rng.choice([1, rng.randrange(1, many + 1)]) if calls else 1, evs=evs))
        script.append(e)
    return script, maps[0], maps[1]


def pair_both(rng, sos, seed, tmp):
    """a master run and a slave run, interleaved; each alone -> two pairs"""
    v = rng.choice(list(sos))
    so = sos[v]
    if rng.random() < 0.35:       # connected with each other: each receives what the other one sends
        y = solo(so, (v, rng.choice(gen_of("y_")), "%s-y" % seed), tmp)
        script, tabs = useful(y), y["cfg"]["tabs"]
        a = script_run(so, script, tabs, tmp)
        res = []
        for x in "ms":
            own = [(i + 1, e) for i, e in enumerate(script) if e["s"] == x]
            b = script_run(so, [e for _, e in own], tabs, tmp)
            res.append(dict(a=a, b=b, map=[i for i, _ in own], script=script, solo=[e for _, e in own], variant=v, tabs=tabs))
        return res
    busy = rng.random() < 0.4         # many transactions that succeed, one side used in the middle of the other's
    m = solo(so, (v, rng.choice(["m_clean", "m_sweep", "m_reuse"] if busy else gen_of("m_")), "%s-m" % seed), tmp)
    if not busy and rng.random() < 0.4:        # both hear the same
        size = {t: len(m["cfg"]["tabs"][t]) for t in TABS}
        tabs = {t: [rng.randrange(2) for _ in range(size[t])] for t in TABS}
        script = mirrored(rng, useful(m))
        a = script_run(so, script, tabs, tmp)
        res = []
        for x in "ms":
            own = [(i + 1, e) for i, e in enumerate(script) if e["s"] == x]
            b = script_run(so, [e for _, e in own], tabs, tmp)
            res.append(dict(a=a, b=b, map=[i for i, _ in own], script=script, solo=[e for _, e in own], variant=v, tabs=tabs))
        return res
    s = solo(so, (v, rng.choice(["s_clean", "s_write", "s_read", "s_cycle"] if busy else gen_of("s_")), "%s-s" % seed), tmp)
    me, se = useful(m), useful(s)
    style = rng.randrange(3)
    script, mm, sm = [], [], []
    i = j = 0
    if busy or rng.random() < 0.2:        # one side is used from within callbacks, or while the driver sends, of the other
        script, mm, sm = crossed(rng, me, se)
        i, j = len(me), len(se)
    while i < len(me) or j < len(se):
        if style == 0:
            n, first = 1, rng.random() < len(me) / (len(me) + len(se))
        elif style == 1:
            n, first = rng.randrange(1, 12), rng.random() < 0.5
        else:
            n, first = 1, len(script) % 2 == 0
        for _ in range(n):
            if (first and i < len(me)) or j >= len(se):
                if i < len(me):
                    script.append(me[i])
                    i += 1
                    mm.append(len(script))
            elif j < len(se):
                script.append(se[j])
                j += 1
                sm.append(len(script))
    tabs = s["cfg"]["tabs"]
    a = script_run(so, script, tabs, tmp)
    bm = script_run(so, me, None, tmp)
    bs = script_run(so, se, tabs, tmp)
    return [dict(a=a, b=bm, map=mm, script=script, solo=me, variant=v, tabs=tabs),
            dict(a=a, b=bs, map=sm, script=script, solo=se, variant=v, tabs=tabs)]


def gen_of(prefix):
    return [g for g in gen.GENS if g.startswith(prefix) and not g.endswith(("_sync", "_nested", "_long"))]


def make(sos, prop, seed, n, tmp, out, workers=8):
    pids = []
    for k in range(workers):
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                with open("%s.%d" % (out, k), "w") as f:
                    for i in range(k, n, workers):
                        rng = random.Random("twin/%s/%s/%d" % (prop, seed, i))
                        sd = "%s-%d" % (seed, i)
                        ps = pair_both(rng, sos, sd, tmp) if prop == "X03" else \
                            [pair_reinit(rng, sos, "m" if prop == "M17" else "s", sd, tmp)]
                        for p in ps:
                            f.write(json.dumps(p, separators=(",", ":")) + "\n")
                code = 0
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                os._exit(code)
        pids.append(pid)
    ok = all([os.waitpid(p, 0)[1] == 0 for p in pids])
    with open(out, "w") as f:
        for k in range(workers):
            with open("%s.%d" % (out, k)) as g:
                f.write(g.read())
            os.unlink("%s.%d" % (out, k))
    if not ok:
        raise RuntimeError("running the pairs failed")


def explore(chk, n=None):
    n = n or 160
    names = ["default", "small", "norep", "one"]
    sos = {v: chk.so(v) for v in names}
    path = os.path.join(chk.tmp, "twin.ndjson")
    make(sos, chk.prop, "%d.%d" % (chk.seed, getattr(chk, "round", 0)), n, chk.tmp, path)
    lines = open(path).read().splitlines()
    # TLC needs the two runs and their relation only
    with open(path, "w") as f:
        for l in lines:
            d = json.loads(l)
            f.write(json.dumps(dict(a=d["a"], b=d["b"], map=d["map"]), separators=(",", ":")) + "\n")
    p = chk.tlc("TwinTrace", "TwinTrace.cfg", dict(TRACES=path))
    g, d = run.stats(p.stdout)
    chk.cov["run_pairs_compared"] = chk.cov.get("run_pairs_compared", 0) + len(lines)
    chk.cov["trace_states_validated"] = chk.cov.get("trace_states_validated", 0) + d
    chk.cov["traces_validated_against_impl"] += 2 * len(lines)
    bad = sorted((v[2], v[1] - 1) for v in run.printed(p.stdout, "DIFFER"))
    if bad:
        i, t = bad[0]
        pr = json.loads(lines[t])
        at = pr["map"][i - 1]
        chk.violation = dict(pair=dict(script=pr["script"], solo=pr["solo"], map=pr["map"], at=i), step=at, what="pair of runs", cfg="TwinTrace.cfg",
                             why={"M17": "after initialising again the master behaves differently than after the first initialisation",
                                  "S10": "after initialising again the slave behaves differently than after the first initialisation",
                                  "X03": "a side behaves differently when the other one is used as well"}[chk.prop],
                             trace=dict(cfg=dict(job=[pr["variant"], "twin", t], tabs=pr["tabs"]), ev=pr["a"]))
        # again, in fresh processes
        a = script_run(sos[pr["variant"]], pr["script"], pr["tabs"], chk.tmp)
        if a != pr["a"]:
            raise RuntimeError("a run is not reproducible")

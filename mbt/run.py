"""Runs test drivers on the real library, each in a fresh process, and lets TLC judge the records."""
import json, os, random, re, signal, subprocess, sys, time, shutil
from . import gen, tour
from .lib import Lib, TABS

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
CP = "/opt/veriftools/tla/tla2tools.jar"


def trace_of(lib, job, conf):
    c = dict(lib.cfg)
    c["tabs"] = lib.tabs
    c["conf"] = conf
    c["job"] = list(job)
    return dict(cfg=c, ev=lib.ev)


TOURS = {}


def follow(lib, sink):
    """write every event to sink before it happens"""
    lib.sink = lambda d: (sink.write(json.dumps(d) + "\n"), sink.flush())
    hook = lib.setup_tables

    def st(tabs):
        if tabs is not lib.tabs:
            hook(tabs)
        sink.write(json.dumps(dict(tabs=lib.tabs)) + "\n")
        sink.flush()
    lib.setup_tables = st
    lib.retab = st


def drive(so, job, sink=None):
    variant, name, seed = job
    rng = random.Random("%s/%s" % (name, seed))
    if name == "tour":
        lib = Lib(so)
        if sink:
            follow(lib, sink)
        n, j, step, k = seed
        if n not in TOURS:
            TOURS[n] = tour.load(n)
        tour.record(lib, TOURS[n], j, step, k)
        return trace_of(lib, job, False)
    lib = Lib(so)
    if sink:
        follow(lib, sink)
    g = gen.GENS.get(name) or gen.ENUMS[name]
    lib.seed = seed
    lib.dual = name.startswith("y_") or name.startswith("x_")
    try:
        g(rng, lib)
    except Exception as e:
        # the generators follow what the library does; one that cannot (an empty frame, say) ends
        # the run there, and the contract judges what was recorded
        t = trace_of(lib, job, True)
        t["cfg"]["cut"] = repr(e)
        return t
    return trace_of(lib, job, True)


def child(so, job, fd, sinkpath=None):
    code = 0
    try:
        signal.alarm(20)
        sink = open(sinkpath, "w") if sinkpath else None
        t = drive(so, job, sink)
        data = (json.dumps(t, separators=(",", ":")) + "\n").encode()
        off = 0
        while off < len(data):
            off += os.write(fd, data[off:off + 65536])
    except BaseException as e:
        import traceback
        traceback.print_exc()
        code = 3
    finally:
        os._exit(code)


def run_forked(so, job, sinkpath=None):
    """-> (line or None, status)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        child(so, job, w, sinkpath)
    os.close(w)
    buf = []
    while True:
        b = os.read(r, 1 << 20)
        if not b:
            break
        buf.append(b)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    return b"".join(buf), st


def one(so, job, tmp):
    data, st = run_forked(so, job)
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0:
        return data.decode()
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 3:
        raise RuntimeError("driver failed for %r" % (job,))
    # the library crashed or did not return: again, recording every event before it happens
    sp = os.path.join(tmp, "sink.%d" % os.getpid())
    _, st = run_forked(so, job, sp)
    ev, tabs = [], None
    lib = Lib(so)
    for l in open(sp):
        try:
            d = json.loads(l)
        except ValueError:
            break
        if "tabs" in d:
            tabs = d["tabs"]
            continue
        if d.get("e") == "rx":
            d["n"] = 0
        ev.append(d)
    os.unlink(sp)
    sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else os.WEXITSTATUS(st)
    ev.append(dict(s="x", e="crash", sig=sig, o=[]))
    c = dict(lib.cfg)
    c.update(tabs=tabs or lib.tabs, conf=False, job=list(job))
    return json.dumps(dict(cfg=c, ev=ev)) + "\n"


def run_jobs(sos, jobs, tmp, out, workers=8, asan=False):
    """runs all jobs [(variant, generator, seed)] and writes one trace per line to out"""
    if asan and "libasan" not in os.environ.get("LD_PRELOAD", ""):
        spec = out + ".jobs"
        json.dump(dict(sos=sos, jobs=jobs, tmp=tmp, out=out, workers=workers), open(spec, "w"))
        e = dict(os.environ)
        e["LD_PRELOAD"] = " ".join(subprocess.run(["gcc", "-print-file-name=" + l], capture_output=True, text=True).stdout.strip()
                                   for l in ("libasan.so", "libubsan.so"))
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:detect_odr_violation=0"
        e["UBSAN_OPTIONS"] = "abort_on_error=1:print_stacktrace=1"
        p = subprocess.run([sys.executable, "-m", "mbt.run", spec], env=e, cwd=os.path.dirname(HERE), stderr=subprocess.PIPE, text=True, errors="replace")
        for l in p.stderr.splitlines():
            if "ERROR" in l or "runtime error" in l or "SUMMARY" in l:
                print(l)
        if p.returncode:
            print(p.stderr[-3000:])
            raise RuntimeError("running the test drivers under the address sanitizer failed")
        os.unlink(spec)
        return
    n = min(workers, max(1, len(jobs)))
    pids = []
    for k in range(n):
        pid = os.fork()
        if pid == 0:
            try:
                os.environ.setdefault("ASAN_OPTIONS", "detect_leaks=0")
                with open("%s.%d" % (out, k), "w") as f:
                    for j in jobs[k::n]:
                        f.write(one(sos[j[0]], j, tmp))
                os._exit(0)
            except BaseException:
                import traceback
                traceback.print_exc()
                os._exit(1)
        pids.append(pid)
    ok = True
    for p in pids:
        _, st = os.waitpid(p, 0)
        ok = ok and st == 0
    with open(out, "w") as f:
        for k in range(n):
            with open("%s.%d" % (out, k)) as g:
                shutil.copyfileobj(g, f)
            os.unlink("%s.%d" % (out, k))
    if not ok:
        raise RuntimeError("running the test drivers failed")


def tlc(module, cfg, env, meta, workers=8, timeout=800, extra=(), heap="6g"):
    e = dict(os.environ)
    e.update(env)
    cmd = ["java", "-Xmx" + heap, "-XX:+UseParallelGC", "-cp", CP + ":" + community(), "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, *extra, module]
    p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    return p


_comm = None


def community():
    global _comm
    if _comm is None:
        t = open(shutil.which("tlc")).read()
        m = re.findall(r"[\w/.\-]*CommunityModules[\w.\-]*\.jar", t)
        _comm = m[0] if m else ""
    return _comm


STAT = re.compile(r"^(\d+) states generated, (\d+) distinct states found", re.M)


def stats(out):
    m = STAT.findall(out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def value(src):
    """a TLA+ value printed by TLC -> Python (sequences and sets become lists, records dicts)"""
    toks = re.findall(r'<<|>>|\{|\}|\[|\]|\|->|,|"(?:[^"\\]|\\.)*"|-?\d+|\w+|:>|@@|\(|\)', src)
    pos = 0

    def val():
        nonlocal pos
        t = toks[pos]
        pos += 1
        if t in ("<<", "{"):
            end = ">>" if t == "<<" else "}"
            r = []
            while toks[pos] != end:
                if toks[pos] == ",":
                    pos += 1
                    continue
                r.append(val())
            pos += 1
            return r
        if t == "[":
            r = {}
            while toks[pos] != "]":
                if toks[pos] == ",":
                    pos += 1
                    continue
                k = toks[pos]
                pos += 2
                r[k] = val()
            pos += 1
            return r
        if t == "(":
            r = []
            while toks[pos] != ")":
                if toks[pos] in ("@@", ":>", ","):
                    pos += 1
                    continue
                r.append(val())
            pos += 1
            return r
        if t[0] == '"':
            return t[1:-1]
        if t in ("TRUE", "FALSE"):
            return t == "TRUE"
        try:
            return int(t)
        except ValueError:
            return t
    return val()


def printed(out, tag):
    """all values <<tag, ...>> printed with PrintT"""
    res = []
    for m in re.finditer(r'^<<\s*"%s"' % tag, out, re.M):
        i, depth = m.start(), 0
        j = i
        while j < len(out):
            if out.startswith("<<", j):
                depth += 1
                j += 2
            elif out.startswith(">>", j):
                depth -= 1
                j += 2
                if depth == 0:
                    break
            else:
                j += 1
        res.append(value(out[i:j]))
    return res


if __name__ == "__main__":      # under the address sanitizer
    a = json.load(open(sys.argv[1]))
    run_jobs(a["sos"], [tuple(j) for j in a["jobs"]], a["tmp"], a["out"], a["workers"])

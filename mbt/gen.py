"""Test drivers: schedules of application calls and line events for the real library.

Each generator is a function (rng, lib) that drives one fresh instance of the library and
adapts to what it does.  They produce inputs only; whether what the library did is right is
decided by TLC against the specification."""
from .lib import TABS, frame, crc16

FC_TAB = {1: "coil", 2: "din", 3: "hreg", 4: "inreg", 5: "coil", 6: "hreg", 15: "coil", 16: "hreg"}
MAXQ = {1: 2000, 2: 2000, 3: 125, 4: 125, 15: 1968, 16: 123}
FCS = [1, 2, 3, 4, 5, 6, 15, 16]


# ------------------------------------------------------------------ helpers
def rb(rng, p):
    return rng.random() < p


def some_adr(rng):
    return rng.choice([0, 1, 2, 7, 8, 100, 255, 256, 257, 0x1234, 0x7FFF, 0x8000, 0xFF00, 0xFFFE, 0xFFFF, rng.randrange(65536)])


def some_id(rng):
    return rng.choice([1, 2, 3, 5, 17, 127, 128, 200, 247, 255, rng.randrange(1, 256)])


def any_id(rng):
    """of a request the master is to send: there is no reason why not to address 0 as well"""
    return 0 if rb(rng, 0.03) else some_id(rng)


def some_baud(rng):
    return rng.choice([1200, 9600, 19200, 115200, 300, 57600, 65536, 921600, 1000000])


def some_reg(rng):
    return rng.choice([0, 1, 2, 255, 256, 0x00FF, 0xFF00, 0x8000, 0x7FFF, 0xFFFF, 0xAA55, rng.randrange(65536)])


def some_qty(rng, fc, small=0.6):
    mx = MAXQ[fc]
    if rb(rng, small):
        return rng.choice([1, 2, 3, 5, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 25])
    return rng.choice([mx, mx - 1, mx - 7, mx - 8, mx // 2, 63, 64, 65, 100, rng.randrange(1, mx + 1)]) if mx > 200 else \
        rng.choice([mx, mx - 1, mx - 2, 31, 32, 33, 63, 64, 65, rng.randrange(1, mx + 1)])


def bad_qty(rng, fc):
    mx = MAXQ[fc]
    return rng.choice([0, mx + 1, mx + 2, mx + 8, 0x7FFF, 0x8000, 0xFFFF, 256 if mx < 256 else 2048, rng.randrange(mx + 1, 65536)])


def vals_for(rng, fc, q):
    if fc == 5:
        return [rng.randrange(2)]
    if fc == 6:
        return [some_reg(rng)]
    if fc == 15:
        k = rng.randrange(4)
        return [1] * q if k == 0 else [0] * q if k == 1 else [rng.randrange(2) for _ in range(q)]
    if fc == 16:
        return [some_reg(rng) for _ in range(q)]
    return []


def tweak(rng, fc, vals):
    """one of the values changed"""
    if not vals:
        return vals
    v = list(vals)
    i = rng.choice([0, len(v) - 1, rng.randrange(len(v))])
    v[i] = 1 - v[i] if fc in (5, 15) else v[i] ^ (1 << rng.randrange(16))
    return v


def some_req(rng, small=0.75, fcs=FCS, ids=None, adrs=None):
    fc = rng.choice(fcs)
    q = 1 if fc in (5, 6) else some_qty(rng, fc, small)
    a = rng.choice(adrs) if adrs else some_adr(rng)
    i = rng.choice(ids) if ids else any_id(rng)
    return dict(fc=fc, adr=a, qty=q, id=i, vals=vals_for(rng, fc, q))


def illegal_req(rng):
    fc = rng.choice([1, 2, 3, 4, 15, 16])
    q = bad_qty(rng, fc)
    return dict(fc=fc, adr=some_adr(rng), qty=q, id=any_id(rng), vals=[0] * (q if fc in (15, 16) else 0))


def u16(f, i):
    return f[i] * 256 + f[i + 1]


def answer(rng, f, data=None):
    """a proper answer to request frame f"""
    fc = f[1]
    if fc in (1, 2):
        q = u16(f, 4)
        n = (q + 7) // 8
        k = rng.randrange(4)
        d = [255] * n if k == 0 else [rng.randrange(256) for _ in range(n)]
        if rb(rng, 0.7) and q % 8:
            d[-1] &= (1 << (q % 8)) - 1
        return frame([f[0], fc, n] + d)
    if fc in (3, 4):
        n = 2 * u16(f, 4)
        return frame([f[0], fc, n] + [rng.choice([0, 255, 1, 128, rng.randrange(256)]) for _ in range(n)])
    return frame(f[:6])


def exception(rng, f, code=None):
    return frame([f[0], f[1] | 128, code if code is not None else rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 11, rng.randrange(256)])])


def flip(rng, f, n=None, burst=False):
    """an error pattern that CRC-16 is guaranteed to detect"""
    g = list(f)
    nb = 8 * len(g)
    if burst:
        w = rng.randrange(1, 17)
        s = rng.randrange(0, nb - w + 1) if nb > w else 0
        pat = rng.getrandbits(w) | 1 | (1 << (w - 1))
        bits = [s + k for k in range(w) if pat >> k & 1]
    else:
        n = n if n is not None else rng.choice([1, 1, 2, 2, 3, 5])
        bits = rng.sample(range(nb), min(n, nb))
    for b in bits:
        g[b // 8] ^= 1 << (b % 8)
    return g


def damaged(rng, f):
    """an answer that arrives damaged, still recognisable as the slave's"""
    k = rng.randrange(7)
    if k == 6:
        return f[:-2] + rng.choice(wrong_crcs(f[:-2]))
    if k == 0:
        return f[:rng.randrange(1, len(f))]
    if k == 1:
        g = flip(rng, f[1:])
        return [f[0]] + g
    if k == 2:
        g = flip(rng, f[1:], burst=True)
        return [f[0]] + g
    if k == 3:
        return f[:-2] + [f[-1], f[-2]] if f[-1] != f[-2] else f[:-1] + [f[-1] ^ 1]
    if k == 4:
        return f[:-1] + [f[-1] ^ (1 << rng.randrange(8))]
    return f[:-2] + [f[-2] ^ 255, f[-1]]


def misfit(rng, f):
    """an intact frame of the right slave that is no answer to request f"""
    fc = f[1]
    good = answer(rng, f)
    k = rng.randrange(10)
    if k == 0:
        g = list(good[:-2])
        g[1] = rng.choice([x for x in range(1, 128) if x != fc])
        return frame(g)
    if k == 1:
        other = rng.choice([x for x in range(128, 256) if x != fc + 128])
        return frame([f[0], other, rng.randrange(1, 5)])
    if k == 2:
        return frame(good[:-2] + [rng.randrange(256) for _ in range(rng.choice([1, 2, 3]))]) if len(good) < 250 else frame(good[:-3])
    if k == 3:
        return frame(good[:max(2, len(good) - 2 - rng.choice([1, 2]))])
    if k == 4:
        return frame([f[0], fc + 128] + [2] * rng.choice([0, 2, 3]))
    if fc <= 4:
        g = list(good[:-2])
        if k == 5:
            g[2] = (g[2] + rng.choice([1, 2, 255, 254, 128])) % 256
        elif k == 6:
            n = rng.choice([0, g[2] + 2, g[2] + 1, max(0, g[2] - 1), max(0, g[2] - 2)])
            if n == g[2] or n > 248:
                n = g[2] - 1
            g = g[:2] + [n] + [rng.randrange(256) for _ in range(n)]
        elif k == 7:
            same = {1: 2, 2: 1, 3: 4, 4: 3}[fc]
            g[1] = same
        elif k == 8:
            g = [f[0], fc]
        else:
            g[2] = 0
        return frame(g)
    g = list(f[:6])
    if k == 5:
        g[2 + rng.randrange(4)] ^= 1 << rng.randrange(8)
    elif k == 6:
        g[1] = {5: 6, 6: 5, 15: 16, 16: 15}[fc]
    elif k == 7:
        g[3] ^= rng.randrange(1, 256)
    elif k == 8:
        g[5] ^= rng.randrange(1, 256)
    else:
        g[4] ^= rng.randrange(1, 256)
    return frame(g)


def foreign(rng, f):
    i = rng.choice([x for x in (f[0] ^ 1, f[0] ^ 128, 0, 255, (f[0] + 1) % 256, rng.randrange(256)) if x != f[0]])
    k = rng.randrange(4)
    if k == 0:
        g = answer(rng, f)
        return frame([i] + g[1:-2])
    if k == 1:
        return frame([i, rng.choice(FCS) | 128, 2])
    if k == 2:
        return frame([i] + [rng.randrange(256) for _ in range(rng.randrange(1, 12))])
    g = frame([i] + list(f[1:-2]))
    return g if rb(rng, 0.7) else flip(rng, g[1:]) and [i] + flip(rng, g[1:])


def chunks(rng, bs, n=None):
    bs = list(bs)
    if n is None:
        n = rng.choice([1, 1, 1, 2, 3])
    if n <= 1 or len(bs) < n:
        return [bs]
    cuts = sorted(rng.sample(range(1, len(bs)), n - 1))
    return [bs[a:b] for a, b in zip([0] + cuts, cuts + [len(bs)])]


class Side:
    """port p of the library with its application calls"""

    def __init__(self, lib, p, rng):
        self.lib, self.p, self.rng = lib, p, rng
        self.tx = None
        self.last = None
        self.outs = []
        self.sent = 0

    eager = 0

    def want(self):
        """an application that has got another request whenever it is asked"""
        if self.eager and self.rng.random() < self.eager:
            r = some_req(self.rng, small=1)
            r["qty"], r["vals"] = min(r["qty"], 3), r["vals"][:3]
            m_request(self.rng, self, r)

    def note(self, o):
        for x in o:
            if x["k"] == "tx" and x["s"] == "ms"[self.p]:
                self.tx = x["b"]
                self.sent += 1
        self.outs += o
        return o

    def poll(self, n=1):
        for _ in range(n):
            self.note(self.lib.m_poll() if self.p == 0 else self.lib.s_poll())
            self.want()

    def rpoll(self, mx=3):
        self.poll(self.rng.randrange(0, mx + 1))

    def recv(self, bs, polls=1, t15=True, t35=True, ferr=None, n=None):
        """a reception: bytes, the silences, polls anywhere (polls = highest number in one place)"""
        for k, c in enumerate(chunks(self.rng, bs, n)):
            if k:
                self.rpoll(polls)
            self.lib.rx(self.p, c)
            self.want()
            if ferr == k:
                self.lib.ferr(self.p)
        if t15:
            self.rpoll(polls)
            self.lib.t15(self.p)
            self.want()
        if t35:
            self.rpoll(polls)
            self.lib.t35(self.p)
            self.want()

    def settle(self, n=7):
        self.poll(n)


def noise(rng, s, f=None, n=1):
    """line events in no particular order"""
    for _ in range(n):
        k = rng.randrange(11)
        if k == 10:
            s.lib.txdone(s.p, dup=True)
            continue
        if k == 0:
            s.lib.t15(s.p)
        elif k == 1:
            s.lib.t35(s.p)
        elif k == 2:
            s.lib.ferr(s.p)
        elif k == 3:
            s.lib.rx(s.p, [rng.randrange(256) for _ in range(rng.choice([1, 1, 2, 3, 8]))])
        elif k == 4 and f:
            s.lib.rx(s.p, f[:rng.randrange(1, len(f) + 1)])
        elif k == 5 and f:
            s.recv(foreign(rng, f), polls=1)
        elif k == 6 and f:
            s.recv(damaged(rng, answer(rng, f) if s.p == 0 else f), polls=1)
        elif k == 7:
            s.lib.rx(s.p, [rng.randrange(256) for _ in range(rng.choice([1, 4]))])
            s.lib.t15(s.p)
        elif k == 8:
            s.lib.t15(s.p)
            s.lib.t35(s.p)
        else:
            s.rpoll(2)


def split(rng, s, f):
    """a frame with a silence in it, hardly polled meanwhile"""
    lib = s.lib
    c = rng.randrange(1, len(f))
    lib.rx(s.p, f[:c])
    if rb(rng, 0.85):
        lib.t15(s.p)
    s.poll(rng.choice([0, 0, 0, 1]))
    if rb(rng, 0.6):
        lib.t35(s.p)
    s.poll(rng.choice([0, 0, 0, 0, 1]))
    lib.rx(s.p, f[c:])
    s.poll(rng.choice([0, 0, 1, 2]))
    if rb(rng, 0.8):
        lib.t15(s.p)
        s.poll(rng.choice([0, 0, 1]))
        lib.t35(s.p)


# ------------------------------------------------------------------ master
def m_start(rng, lib, mode=0):
    s = Side(lib, 0, rng)
    if lib.warm:
        m_step(rng, s, lib.m_warm(lib.warm, rng.randrange(1 << 31), some_baud(rng), rng.choice([0, 1, 2])))
    else:
        lib.m_init(mode, some_baud(rng), rng.choice([0, 1, 2]))
    return s


def m_step(rng, s, step):
    """a step of the past (see m_warm), recorded"""
    lib = s.lib
    for r in step:
        m_request(rng, s, {k: r[k] for k in ("fc", "adr", "qty", "id", "vals")})
    for r in step:
        for _ in range(lib.cfg["R"] + 1):
            s.poll(7)
            if not lib.pending(0):
                break
            lib.txdone(0)
            s.poll(1)
            f = s.tx
            if r["how"] == 0:
                lib.m_tick(lib.cfg["T"])
                s.poll(7)
                break
            if r["how"] == 1:
                s.recv(foreign(rng, f), 4)
            g = exception(rng, f) if r["how"] == 2 else answer(rng, f)
            if r["how"] == 3:
                g[-1] ^= 1
            s.recv(g, 4, ferr=0 if r["how"] == 4 else None, n=1)
            s.poll(7)


def m_request(rng, s, r=None, **kw):
    if r is None:
        if s.last and rb(rng, 0.12):            # the same once more, or all but the same
            r = dict(s.last)
            k = rng.randrange(6)
            if k == 0:
                r["vals"] = vals_for(rng, r["fc"], r["qty"])
            elif k == 1:
                r["id"] = any_id(rng)
            elif k == 2:
                r["vals"] = tweak(rng, r["fc"], r["vals"])
        else:
            r = some_req(rng, **kw)
        s.last = r
    return s.lib.m_req(r["fc"], r["adr"], r["qty"], r["id"], r["vals"])


def m_sent(rng, s, polls=8):
    """poll until the next request is on the line and its transmission is over"""
    n = s.sent
    for _ in range(polls):
        if s.lib.pending(0):
            break
        s.poll()
    if s.lib.pending(0):
        s.rpoll(2)
        s.lib.txdone(0)
        s.rpoll(2)
    return s.sent > n


def m_drain(rng, s):
    """ends all that is going on: everything is transmitted, the line falls silent, time passes"""
    lib = s.lib
    quiet = rb(rng, 0.5)
    for _ in range((lib.cfg["N"] + 1) * (lib.cfg["R"] + 2)):
        if lib.pending(0):
            lib.txdone(0)
        if quiet:
            lib.quiet(0)
        else:
            lib.t15(0)
            lib.t35(0)
        s.poll(7)
        if lib.pending(0):
            lib.txdone(0)
        s.poll(1)
        lib.m_tick(lib.cfg["T"])
        s.poll(7)
    lib.end()


def m_exchange(rng, s, kind, polls=2, ticks=True):
    """one transmission of the request in progress and what comes back for it"""
    lib = s.lib
    T = lib.cfg["T"]
    if not (lib.pending(0) or m_sent(rng, s)):
        pass
    if lib.pending(0):
        s.rpoll(1)
        lib.txdone(0)
    s.rpoll(polls)
    f = s.tx
    if f is None:
        return
    if ticks and T > 3:
        lib.m_tick(rng.randrange(0, T - 2))
    if kind == "good":
        s.recv(answer(rng, f), polls)
    elif kind == "exc":
        s.recv(exception(rng, f), polls)
    elif kind == "damaged":
        s.recv(damaged(rng, answer(rng, f) if rb(rng, 0.7) else exception(rng, f)), polls)
    elif kind == "ferr":
        g = answer(rng, f)
        s.recv(g, polls, ferr=rng.randrange(2) if len(g) > 6 else 0, n=rng.choice([1, 2]))
    elif kind == "misfit":
        s.recv(misfit(rng, f), polls)
    elif kind == "foreign":
        s.recv(foreign(rng, f), polls, ferr=0 if rb(rng, 0.15) else None, n=1)
    elif kind == "fgood":       # frames for others, then the answer
        for _ in range(rng.choice([1, 1, 2])):
            g = foreign(rng, f)
            if rb(rng, 0.7):
                s.recv(g, polls, ferr=0 if rb(rng, 0.5) else None, n=1)
            else:
                lib.rx(0, g)
                if rb(rng, 0.5):
                    lib.ferr(0)
                lib.t15(0)
                lib.t35(0)
            s.settle(rng.choice([4, 7]))
        s.recv(answer(rng, f), polls)
    elif kind == "split":
        split(rng, s, answer(rng, f) if rb(rng, 0.8) else exception(rng, f))
    elif kind == "noise":
        noise(rng, s, f, rng.randrange(1, 6))
    elif kind == "trunc":
        g = answer(rng, f)
        s.recv(g[:rng.randrange(1, len(g))], polls)
    elif kind == "silent":
        for _ in range(rng.randrange(1, 4)):
            lib.m_tick(rng.randrange(1, T + 1))
            s.rpoll(2)
    s.settle(rng.choice([7, 7, 8, 10]))


def m_mix(rng, lib, kinds, nreq, small=0.8, polls=2, fcs=FCS, nq=None, noise_p=0.0, illegal_p=0.05):
    s = m_start(rng, lib)
    N = lib.cfg["N"]
    left = nreq
    steps = 0
    while steps < nreq * 6 and (left > 0 or s.lib.pending(0)):
        steps += 1
        k = rng.randrange(0, (nq or N) + 1)
        for _ in range(k):
            if left > 0:
                if rb(rng, illegal_p):
                    m_request(rng, s, illegal_req(rng))
                elif m_request(rng, s, small=small, fcs=fcs) == 0:
                    left -= 1
        if noise_p and rb(rng, noise_p):
            noise(rng, s, s.tx, rng.randrange(1, 4))
        m_exchange(rng, s, rng.choice(kinds), polls)
    m_drain(rng, s)


def g_m_clean(rng, lib):
    m_mix(rng, lib, ["good"], 4, small=0.5)


def g_m_quick(rng, lib):
    """clean exchanges in rapid succession without any polls in between events"""
    m_mix(rng, lib, ["good", "good", "good", "exc"], 5, small=0.9, polls=0)


def g_m_answers(rng, lib):
    m_mix(rng, lib, ["good", "good", "exc", "damaged", "misfit", "silent"], 5)


def g_m_repeat(rng, lib):
    m_mix(rng, lib, ["damaged", "damaged", "ferr", "trunc", "good", "misfit", "silent"], 4, small=0.95)


def g_m_misfit(rng, lib):
    m_mix(rng, lib, ["misfit", "misfit", "misfit", "good", "exc"], 4, small=0.9)


def g_m_foreign(rng, lib):
    m_mix(rng, lib, ["foreign", "fgood", "fgood", "foreign", "good", "damaged", "silent"], 4, small=0.9)


def g_m_exc(rng, lib):
    m_mix(rng, lib, ["exc", "exc", "exc", "good", "damaged"], 5, small=0.9)


def g_m_noise(rng, lib):
    m_mix(rng, lib, ["good", "noise", "noise", "damaged", "silent", "trunc", "foreign", "split", "fgood"], 4, small=0.95, noise_p=0.3)


def g_m_recover(rng, lib):
    """whatever happened before, then a clean exchange"""
    s = m_start(rng, lib)
    for _ in range(rng.randrange(1, 4)):
        m_request(rng, s, small=0.95)
        for _ in range(rng.randrange(0, 3)):
            m_exchange(rng, s, rng.choice(["noise", "damaged", "silent", "trunc", "foreign", "ferr", "misfit", "good", "exc", "split"]), ticks=rb(rng, 0.5))
            if rb(rng, 0.4):
                noise(rng, s, s.tx, rng.randrange(1, 5))
        # let it conclude
        for _ in range((lib.cfg["R"] + 2) * (lib.cfg["N"] + 1)):
            lib.txdone(0)
            lib.t15(0)
            lib.t35(0)
            s.poll(7)
            lib.txdone(0)
            s.poll(1)
            lib.m_tick(lib.cfg["T"])
            s.poll(7)
        # late answers, stray events while idle
        if s.tx and rb(rng, 0.5):
            k = rng.randrange(4)
            if k == 0:
                s.recv(answer(rng, s.tx), 1)
            elif k == 1:
                lib.rx(0, answer(rng, s.tx)[:3])
            elif k == 2:
                noise(rng, s, s.tx, 3)
            else:
                lib.t35(0)
            s.settle()
        m_request(rng, s, small=0.95)
        if rb(rng, 0.3) and s.tx:
            # something arrives while the request is being transmitted
            s.poll(1)
            k = rng.randrange(4)
            if k == 0:
                s.recv(answer(rng, s.tx), 0)
            elif k == 1:
                lib.ferr(0)
                lib.t15(0)
                lib.t35(0)
            elif k == 2:
                s.recv([s.tx[0]] + [rng.randrange(256) for _ in range(3)], 0)
            else:
                lib.t35(0)
        m_exchange(rng, s, "good")
    m_drain(rng, s)


def g_m_timeout(rng, lib):
    """the response time, with irregular polls and ticks"""
    s = m_start(rng, lib)
    T = lib.cfg["T"]
    for _ in range(rng.randrange(1, 4)):
        m_request(rng, s, small=1)
        for _ in range(rng.randrange(1, 3)):
            if not lib.pending(0):
                m_sent(rng, s)
            lib.txdone(0)
            style = rng.randrange(6)
            if style == 0:      # tick by tick up to the end, polled always
                s.poll(1)
                if T > 1100:
                    lib.m_tick(T - 300)
                for _ in range(min(T, 300) + 1 if T > 1100 else T + 1):
                    lib.m_tick(1)
                    s.poll(rng.choice([1, 1, 2]))
            elif style == 1:    # rarely polled
                s.poll(rng.randrange(1, 3))
                left = 2 * T + 2
                while left > 0:
                    n = rng.randrange(1, T + 2)
                    lib.m_tick(n)
                    left -= n
                    s.rpoll(1)
            elif style == 2:    # just before the end
                s.poll(2)
                lib.m_tick(max(0, T - 2))
                s.poll(7)
                if rb(rng, 0.5):
                    s.recv(answer(rng, s.tx), 1)
                lib.m_tick(1)
                s.poll(7)
            elif style == 3:    # an answer in the last moment
                s.poll(1)
                lib.m_tick(max(0, T - 3))
                s.recv(answer(rng, s.tx), rng.randrange(3))
                s.poll(7)
            elif style == 4:    # damaged answer late, then the full time again
                s.poll(1)
                lib.m_tick(max(0, T - 3))
                s.recv(damaged(rng, answer(rng, s.tx)), 1)
                s.poll(7)
                if lib.pending(0):
                    lib.txdone(0)
                    s.poll(1)
                    lib.m_tick(max(0, T - 2))
                    s.poll(7)
                    lib.m_tick(3)
                    s.poll(7)
            else:               # foreign frames must not prolong it
                s.poll(1)
                for _ in range(3):
                    lib.m_tick(max(1, T // 3))
                    s.recv(foreign(rng, s.tx), 1)
                    s.poll(7)
                lib.m_tick(T)
            s.poll(7)
    m_drain(rng, s)


def g_m_limits(rng, lib):
    """requests at the limits, full queue, refused requests in between"""
    s = m_start(rng, lib)
    for _ in range(rng.randrange(3, 7)):
        for _ in range(rng.randrange(1, lib.cfg["N"] + 3)):
            k = rng.randrange(5)
            if k == 0:
                fc = rng.choice([1, 2, 3, 4, 15, 16])
                q = rng.choice([0, 1, MAXQ[fc], MAXQ[fc] + 1])
                m_request(rng, s, dict(fc=fc, adr=some_adr(rng), qty=q, id=any_id(rng), vals=vals_for(rng, fc, q)))
            elif k == 1:
                m_request(rng, s, illegal_req(rng))
            else:
                m_request(rng, s, small=0.85)
        for _ in range(rng.randrange(1, lib.cfg["N"] + 2)):
            m_exchange(rng, s, rng.choice(["good", "good", "exc", "silent", "damaged"]), polls=1)
    m_drain(rng, s)


def g_m_refused(rng, lib):
    """many refused requests, then the whole capacity must be there"""
    s = m_start(rng, lib)
    N = lib.cfg["N"]
    for _ in range(rng.randrange(2, 5)):
        for _ in range(rng.randrange(0, N + 1)):
            m_request(rng, s, illegal_req(rng))
        for _ in range(rng.randrange(1, N + 2)):
            m_request(rng, s, small=1)
            if rb(rng, 0.3):
                m_request(rng, s, illegal_req(rng))
        for _ in range(rng.randrange(0, N + 2)):
            m_exchange(rng, s, rng.choice(["good", "exc", "silent", "damaged", "misfit"]), polls=1)
    m_drain(rng, s)
    # (after the drain nothing is unfinished: exactly N more are accepted)
    for _ in range(N + 1):
        m_request(rng, s, small=1)
    m_drain(rng, s)


def g_m_sweep(rng, lib):
    """exact encodings: all function codes over addresses, quantities and values"""
    s = m_start(rng, lib)
    for _ in range(rng.randrange(4, 7)):
        m_request(rng, s, small=0.35)
        m_exchange(rng, s, rng.choice(["good", "good", "good", "damaged", "exc"]), polls=1)
    m_drain(rng, s)


def g_m_reuse(rng, lib):
    """long frames followed by short ones in the same message slot and back"""
    s = m_start(rng, lib)
    ids = [some_id(rng)]
    for k in range(rng.randrange(4, 8)):
        fc = rng.choice([15, 16, 1, 3, 5, 6])
        q = 1 if fc in (5, 6) else (MAXQ[fc] if rb(rng, 0.2) and k % 2 == 0 else rng.choice([1, 2, 9, 17, 30, rng.randrange(1, MAXQ[fc])]))
        for _ in range(rng.choice([1, 1, lib.cfg["N"]])):
            m_request(rng, s, dict(fc=fc, adr=some_adr(rng), qty=q, id=ids[0], vals=vals_for(rng, fc, q)))
        m_exchange(rng, s, rng.choice(["good", "good", "exc", "trunc"]), polls=1)
    m_drain(rng, s)


def g_m_order(rng, lib):
    """several requests waiting while earlier ones fail and are repeated"""
    s = m_start(rng, lib)
    N = lib.cfg["N"]
    for _ in range(rng.randrange(3, 6)):
        for _ in range(rng.randrange(1, N + 2)):
            m_request(rng, s, small=0.97, ids=[1, 2, 3], adrs=[1, 2, 3, 4, 5])
        for _ in range(rng.randrange(1, 4)):
            m_exchange(rng, s, rng.choice(["good", "damaged", "silent", "exc", "noise", "foreign"]))
            if rb(rng, 0.3):
                m_request(rng, s, small=1, ids=[1, 2, 3], adrs=[1, 2, 3, 4, 5])
    m_drain(rng, s)


def g_m_chaos(rng, lib):
    """anything at any time"""
    if rb(rng, 0.15):
        lib.sync(0, 1)
    s = m_start(rng, lib)
    T = lib.cfg["T"]
    reqs = 0
    nests = rb(rng, 0.3)
    for _ in range(rng.randrange(60, 130)):
        k = rng.randrange(16)
        f = s.tx
        if k in (0, 1) and reqs < 6:
            reqs += 1
            if nests and rb(rng, 0.4):
                r = illegal_req(rng) if rb(rng, 0.15) else some_req(rng, small=1)
                lib.nest(r["fc"], r["adr"], r["qty"], r["id"], r["vals"][:2000])
            m_request(rng, s, illegal_req(rng) if rb(rng, 0.15) else None, small=1)
        elif k in (2, 3, 4, 5):
            s.poll(rng.choice([1, 1, 2, 7]))
        elif k == 6:
            lib.m_tick(rng.choice([1, 1, 2, T // 2, T - 1, T, T + 1]))
        elif k in (7, 8):
            lib.txdone(0, dup=rb(rng, 0.3))
        elif k == 9:
            lib.t15(0)
        elif k in (10, 11):
            lib.t35(0)
        elif k == 12:
            lib.ferr(0)
        elif f:
            g = rng.choice([answer, exception, misfit, foreign])(rng, f)
            if rb(rng, 0.2):
                g = damaged(rng, g)
            if k == 13:
                lib.rx(0, g)
            elif k == 14:
                lib.rx(0, g[:rng.randrange(1, len(g) + 1)])
            else:
                s.recv(g, 1)
    m_drain(rng, s)


def g_m_sync(rng, lib):
    """a driver whose send() returns when the transmission is over"""
    lib.sync(0, 1)
    m_mix(rng, lib, ["good", "good", "damaged", "exc", "silent", "misfit", "foreign"], 5, small=0.95)


def g_m_nested(rng, lib):
    """requests issued from within the callbacks"""
    s = m_start(rng, lib)
    for _ in range(rng.randrange(3, 7)):
        if rb(rng, 0.8):
            r = illegal_req(rng) if rb(rng, 0.15) else some_req(rng, small=1)
            lib.nest(r["fc"], r["adr"], r["qty"], r["id"], r["vals"][:2000])
        for _ in range(rng.randrange(0, lib.cfg["N"] + 1)):
            m_request(rng, s, small=1)
        m_exchange(rng, s, rng.choice(["good", "good", "exc", "damaged", "silent"]))
    m_drain(rng, s)


def g_m_chain(rng, lib):
    """an application that issues its next request when the last one is concluded, with hardly anything else waiting"""
    s = m_start(rng, lib)
    one = rb(rng, 0.7)
    r = some_req(rng, small=0.9)
    for i in range(rng.randrange(5, 9)):
        if not lib.pending(0) and not m_sent(rng, s):
            m_request(rng, s, r)
        n = r if rb(rng, 0.3) else some_req(rng, small=0.9)
        if rb(rng, 0.9):
            lib.nest(n["fc"], n["adr"], n["qty"], n["id"], n["vals"][:2000])
        if not one and rb(rng, 0.3):
            m_request(rng, s, small=1)
        r = n
        for _ in range(lib.cfg["R"] + 1):
            c = s.lib.pending(0) or m_sent(rng, s)
            if not c:
                break
            m_exchange(rng, s, rng.choice(["good", "good", "good", "good", "exc", "damaged", "silent", "fgood"]))
            if rb(rng, 0.5):
                s.poll(5)
    m_drain(rng, s)


def g_m_eager(rng, lib):
    """an application that keeps the queue full: it asks again and again, at any moment"""
    s = m_start(rng, lib)
    for _ in range(rng.randrange(4, 8)):
        s.eager = rng.choice([0.1, 0.3, 0.6])
        m_exchange(rng, s, rng.choice(["good", "good", "exc", "damaged", "ferr", "silent", "fgood", "misfit"]))
        if rb(rng, 0.2):
            noise(rng, s, s.tx, 2)
    s.eager = 0
    m_drain(rng, s)


def g_m_cycle(rng, lib):
    """the same few requests again and again, their answers mostly those of the last time"""
    s = m_start(rng, lib)
    N = rng.choice([1, 1, 2, 3])
    reqs = [some_req(rng, small=0.5, fcs=rng.choice([FCS, [1, 2, 3, 4], [15, 16]])) for _ in range(N)]
    if N > 1 and rb(rng, 0.4):
        reqs[1] = dict(reqs[0], id=any_id(rng))
    last = {}
    for i in range(rng.randrange(7, 13)):
        r = reqs[i % N] if rb(rng, 0.9) else rng.choice(reqs)
        if r["fc"] > 4 and rb(rng, 0.5):
            r["vals"] = vals_for(rng, r["fc"], r["qty"]) if rb(rng, 0.3) else tweak(rng, r["fc"], r["vals"])
        m_request(rng, s, r)
        for _ in range(lib.cfg["R"] + 1):
            if not lib.pending(0) and not m_sent(rng, s):
                break
            lib.txdone(0)
            s.rpoll(1)
            f = s.tx
            k = (f[0], f[1], f[2], f[3])
            g = last.get(k)
            x = rng.random()
            if g is None or not (g[1] >= 128 or (len(g) == 5 + g[2] if f[1] < 5 else g[:6] == f[:6])):
                g = answer(rng, f)
            elif x < 0.2 and f[1] < 5 and g[1] < 128:
                g = flip(rng, g[:-2], 1)
                g = frame(list(f[:2]) + [len(g) - 3] + list(g[3:]))
            elif x < 0.3:
                g = exception(rng, f)
            elif x < 0.38:
                g = answer(rng, f)
            last[k] = g
            x = rng.random()
            s.recv(damaged(rng, g) if x < 0.1 else misfit(rng, f) if x < 0.15 else g, 2)
            s.settle(7)
            if x > 0.95:
                lib.m_tick(lib.cfg["T"])
                s.settle(7)
        if rb(rng, 0.3):
            lib.m_tick(rng.choice([1, 2, 50]))
            s.settle(4)
    m_drain(rng, s)


def g_m_isr(rng, lib):
    """line events while the application's callbacks run"""
    s = m_start(rng, lib)
    for _ in range(rng.randrange(3, 7)):
        for _ in range(rng.randrange(1, lib.cfg["N"] + 1)):
            m_request(rng, s, small=0.9)
        if not lib.pending(0):
            m_sent(rng, s)
        f = s.tx
        ops = []
        for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
            k = rng.randrange(9)
            if k < 3 and f:
                g = (answer if k == 0 else foreign if k == 1 else exception)(rng, f)
                ops += [("rx", g[:rng.choice([1, 4, 250])])] + ([("t15", 0), ("t35", 0)] if rb(rng, 0.4) else [])
            elif k == 3:
                ops.append(("rx", [rng.randrange(256) for _ in range(rng.choice([1, 3, 20, 200]))]))
            elif k == 4:
                ops.append(("tick", rng.choice([1, 2, lib.cfg["T"]])))
            else:
                ops.append((rng.choice(["t15", "t35", "ferr", "txdone", "t35"]), 0))
        lib.within(ops, rng.choice([1, 1, 2, 3]))
        m_exchange(rng, s, rng.choice(["good", "good", "good", "exc", "damaged", "silent", "fgood"]))
        if rb(rng, 0.3):
            lib.quiet(0)
            s.poll(rng.choice([0, 1, 7]))
    m_drain(rng, s)


def g_m_own(rng, lib):
    """a line on which the master hears its own requests while it transmits them"""
    s = m_start(rng, lib)
    for _ in range(rng.randrange(4, 8)):
        for _ in range(rng.choice([1, 1, 2])):
            m_request(rng, s, small=0.9, fcs=rng.choice([FCS, [5, 6], [15, 16]]))
        for _ in range(8):
            if lib.pending(0):
                break
            s.poll()
        for _ in range(3):
            if not lib.pending(0) or s.tx is None:
                break
            k = rng.randrange(6)
            g = s.tx if k else s.tx[:-1]
            if k == 1:
                s.recv(g, 0, t15=False, t35=False)     # the silences come after the transmission
            elif k == 2:
                s.recv(g, 1, t35=False)
            elif k == 3:
                s.recv(answer(rng, g) if len(g) > 7 else g, 2)
            else:
                s.recv(g, rng.choice([0, 1, 2]))
            s.rpoll(4)
            lib.txdone(0)
            s.rpoll(2)
            if k == 1:
                lib.t15(0)
            if k in (1, 2):
                lib.t35(0)
            s.rpoll(5)
            r = rng.choice(["good", "good", "silent", "damaged", "exc", "own"])
            if r == "good":
                s.recv(answer(rng, g), 2)
            elif r == "exc":
                s.recv(exception(rng, g), 2)
            elif r == "damaged":
                s.recv(damaged(rng, answer(rng, g)), 2)
            elif r == "own":
                s.recv(s.tx, 2)
            else:
                lib.m_tick(lib.cfg["T"])
            s.settle(8)
    m_drain(rng, s)


def g_m_ages(rng, lib):
    """a master that has been running for long"""
    lib.warm = rng.choice([3, 255, 256, 257, 1000, 32768, 65530, 65536, 70000])
    rng.choice([g_m_clean, g_m_limits, g_m_repeat, g_m_refused, g_m_timeout, g_m_answers, g_m_order, g_m_noise])(rng, lib)


def g_s_ages(rng, lib):
    """a slave that has been running for long"""
    lib.warm = rng.choice([3, 255, 256, 257, 1000, 32768, 65530, 65536, 70000])
    rng.choice([g_s_clean, g_s_exc, g_s_write, g_s_read, g_s_noise, g_s_bad, g_s_short])(rng, lib)


def many_of(rng, s, n, kind, f):
    """the same thing n times over: what lasts or keeps happening on a busy bus or in a badly written application"""
    lib, p = s.lib, s.p
    if kind == "polls":
        s.note(lib.idle(p, n if n > 299 else rng.choice([300, 1000, 70000])))
        return
    if kind == "ticks":         # (a master that is polled after every tick)
        for i in range(n):
            lib.m_tick(1)
            s.poll(1)
        return
    if kind == "app":
        for i in range(n):
            t = rng.choice(TABS)
            lib.app(t, rng.randrange(lib.size[t]), rng.randrange(2))
        return
    g = None
    for i in range(n):
        if kind == "foreign":
            if g is None or rb(rng, 0.5):
                g = foreign(rng, f)[:20]
            lib.rx(p, g)
            lib.t15(p)
            s.poll(1)
            lib.t35(p)
            s.poll(1)
        elif kind == "byte":
            lib.rx(p, [f[0] ^ rng.randrange(1, 256)])
            lib.t15(p)
            s.poll(1)
            lib.t35(p)
            s.poll(1)
        elif kind == "t15":
            lib.t15(p)
        elif kind == "t35":
            lib.t35(p)
        elif kind == "txdone":
            lib.txdone(p, dup=True)
        elif kind == "pairs":
            lib.t15(p)
            lib.t35(p)
            s.poll(1)
        elif kind == "invalid":
            lib.m_req(rng.choice([1, 2, 3, 4]), rng.randrange(100), rng.choice([0, 2001, 65535]), f[0], [])
        elif kind == "full":
            lib.m_req(3, rng.randrange(100), 1, f[0], [])
        elif kind == "ferr":
            lib.ferr(p)
            if rb(rng, 0.3):
                s.poll(1)
        elif kind == "bad":
            lib.rx(p, damaged(rng, f)[:20])
            lib.t15(p)
            s.poll(2)
            lib.t35(p)
            s.poll(2)
    s.poll(rng.choice([1, 4, 7]))


def slow_recv(rng, s, f):
    """a reception while the application polls very often"""
    lib, p = s.lib, s.p
    n = rng.choice([40, 130, 257, 300, 1000, 70000])
    w = rng.choice([0, 1, 1, 1, 2])
    for k, c in enumerate(chunks(rng, f, 2 if w == 0 else 1)):
        if k:
            s.note(lib.idle(p, n))
        lib.rx(p, c)
    if w == 2:
        s.note(lib.idle(p, n))
    lib.t15(p)
    s.note(lib.idle(p, n if w == 1 else rng.randrange(3)))
    lib.t35(p)


def g_m_bus(rng, lib):
    """one wait (or idle time, or transmission) in which the same thing happens many times"""
    s = m_start(rng, lib)
    T = lib.cfg["T"]
    for _ in range(rng.choice([1, 1, 2])):
        n = rng.choice([9, 17, 33, 40, 65, 101, 130, 257])
        where = rng.choice(["idle", "tx", "wait", "wait", "wait", "wait"])
        kind = rng.choice(["foreign", "foreign", "foreign", "byte", "polls", "polls", "t15", "t35", "txdone", "pairs", "invalid", "full", "ferr"])
        if where == "idle":
            many_of(rng, s, n, kind if kind != "full" else "invalid", [rng.randrange(1, 248), 3, 0, 1, 0, 1, 0, 0])
        m_request(rng, s, small=0.95)
        for _ in range(8):
            if lib.pending(0):
                break
            s.poll()
        if s.tx and lib.pending(0) and rb(rng, 0.2):
            s.note(lib.idle(0, rng.choice([257, 1000, 70000])))
            lib.m_tick(rng.choice([0, 1, T - 1, T, T + 3]))
            if rb(rng, 0.4):
                s.recv(answer(rng, s.tx), 2)
            s.poll(rng.randrange(5))
        if where == "tx" and s.tx:
            many_of(rng, s, n, kind if kind != "txdone" else "polls", s.tx)
        lib.txdone(0)
        s.rpoll(2)
        if where == "wait" and s.tx:
            s.poll(1)
            if T > 3:
                lib.m_tick(rng.randrange(0, T - 2))
            many_of(rng, s, n, kind, s.tx)
        if s.tx and rb(rng, 0.25):
            s.poll(1)
            slow_recv(rng, s, rng.choice([answer, answer, exception])(rng, s.tx) if rb(rng, 0.8) else damaged(rng, answer(rng, s.tx)))
            s.settle()
        m_exchange(rng, s, rng.choice(["good", "good", "exc", "damaged", "silent"]), ticks=False)
        s.settle()
    m_drain(rng, s)


def g_s_bus(rng, lib):
    """the same on the slave: nothing for it, for long, and then a request"""
    s = s_start(rng, lib, 0)
    for _ in range(rng.choice([1, 2, 2])):
        n = rng.choice([9, 17, 33, 40, 65, 101, 130, 257])
        f = s_req(rng, lib, s.sid, ok=0.9, small=0.8)
        many_of(rng, s, n, rng.choice(["foreign", "foreign", "foreign", "bad", "bad", "byte", "polls", "polls", "t15", "t35", "txdone", "pairs", "ferr"]), f)
        for _ in range(rng.choice([1, 2])):
            if rb(rng, 0.3):
                slow_recv(rng, s, f)
                s.settle()
                if lib.pending(1) and rb(rng, 0.5):
                    s.note(lib.idle(1, rng.choice([257, 1000, 70000])))
                    if rb(rng, 0.5):
                        s.recv(f, 2)
                        s.poll(4)
            else:
                s.recv(f, 2)
            s_answered(rng, s)
    s_drain(rng, s)


def g_m_forget(rng, lib):
    """a driver whose initialisation forgets callbacks and receive buffer"""
    lib.resetting(0, True)
    rng.choice([g_m_reinit, g_m_clean, g_m_repeat])(rng, lib)


def g_s_forget(rng, lib):
    """the same on the slave"""
    lib.resetting(1, True)
    rng.choice([g_s_reinit, g_s_clean])(rng, lib)


def g_m_before(rng, lib):
    """an application that uses the master before it has initialised it"""
    s = Side(lib, 0, rng)
    for _ in range(rng.randrange(1, 8)):
        k = rng.randrange(3)
        if k == 0:
            for _ in range(rng.randrange(1, lib.cfg["N"] + 2)):
                m_request(rng, s, small=0.7)
        elif k == 1:
            s.poll(rng.randrange(1, 4))
        else:
            lib.m_tick(rng.randrange(1, lib.cfg["T"] + 3))
    s.tx = None
    rng.choice([g_m_clean, g_m_reinit, g_m_repeat, g_m_refused, g_m_timeout])(rng, lib)


def g_s_before(rng, lib):
    """the same on the slave"""
    s = Side(lib, 1, rng)
    s.poll(rng.randrange(1, 5))
    rng.choice([g_s_clean, g_s_reinit, g_s_noise])(rng, lib)


def g_m_long(rng, lib):
    """receptions up to and beyond the size of the buffer"""
    s = m_start(rng, lib)
    for _ in range(rng.randrange(2, 4)):
        m_request(rng, s, small=0.3)
        m_sent(rng, s)
        lib.txdone(0)
        s.rpoll(2)
        if s.tx:
            k = rng.randrange(5)
            n = rng.choice([250, 253, 254, 255, 256, 260])
            if k == 0:
                g = [s.tx[0]] + [rng.randrange(256) for _ in range(n - 1)]
            elif k == 1:
                g = frame([s.tx[0], s.tx[1], 250] + [rng.randrange(256) for _ in range(n - 5)])
            elif k == 2:
                g = answer(rng, s.tx) + [rng.randrange(256) for _ in range(200)]
            elif k == 3:
                g = [s.tx[0] ^ 1] + [rng.randrange(256) for _ in range(n - 1)]
            else:
                g = answer(rng, s.tx)
            s.recv(g[:255], 1)
            s.settle()
            if rb(rng, 0.5):
                m_exchange(rng, s, "good")
    m_drain(rng, s)


def g_m_reinit(rng, lib):
    """initialisation again in any state"""
    s = m_start(rng, lib)
    for _ in range(rng.randrange(1, 4)):
        for _ in range(rng.randrange(0, 3)):
            for _ in range(rng.randrange(0, lib.cfg["N"] + 2)):
                m_request(rng, s, small=1)
            m_exchange(rng, s, rng.choice(["good", "damaged", "silent", "noise", "trunc", "foreign"]))
        for _ in range(rng.randrange(0, lib.cfg["N"] + 2)):
            m_request(rng, s, small=1)
        s.rpoll(2)
        if rb(rng, 0.5):
            lib.txdone(0)
            s.rpoll(1)
            if s.tx and rb(rng, 0.6):
                s.recv(answer(rng, s.tx), 1, t15=rb(rng, 0.7), t35=rb(rng, 0.5))
        mode = 0 if rb(rng, 0.75) else rng.choice([1, 2, 7])
        lib.m_init(mode, some_baud(rng), rng.choice([0, 1, 2]))
        if mode != 0:
            for _ in range(3):
                m_request(rng, s, small=1)
                s.poll(2)
            lib.m_init(0, some_baud(rng), rng.choice([0, 1, 2]))
        s.tx = None
        if rb(rng, 0.5):
            s.poll(7)
            lib.m_tick(lib.cfg["T"] + 1)
            s.poll(7)
        for _ in range(lib.cfg["N"]):
            m_request(rng, s, small=1)
        m_exchange(rng, s, "good")
    m_drain(rng, s)


# ------------------------------------------------------------------- slave
def rand_tabs(rng, lib, miss=None):
    tabs = {}
    k = rng.randrange(4) if miss is None else miss
    for t in TABS:
        n = lib.size[t]
        bit = t in ("coil", "din")
        v = [rng.randrange(2) if bit else some_reg(rng) for _ in range(n)]
        if k == 1:
            for _ in range(rng.randrange(1, 3)):
                v[rng.randrange(n)] = -1
        elif k == 2:
            p = rng.choice([0.1, 0.4])
            v = [-1 if rb(rng, p) else x for x in v]
        elif k == 3 and rb(rng, 0.3):
            v = [-1] * n
        tabs[t] = v
    return tabs


def s_start(rng, lib, miss=None, sid=None):
    s = Side(lib, 1, rng)
    lib.setup_tables(rand_tabs(rng, lib, miss))
    s.sid = some_id(rng) if sid is None else sid
    if lib.warm:
        x = lib.s_warm(s.sid, lib.warm, rng.randrange(1 << 31), some_baud(rng), rng.choice([0, 1, 2]))
        if x:
            if x[0] == 4:
                lib.rx(1, x[1][:1])
                lib.ferr(1)
            e_ask(s, x[1])
            for f in ((s_req(rng, lib, s.sid)), x[1], s_req(rng, lib, s.sid)):
                e_ask(s, f)
    else:
        lib.s_init(s.sid, 0, some_baud(rng), rng.choice([0, 1, 2]))
    return s


def s_req(rng, lib, sid, fc=None, ok=0.6, small=0.7):
    """a request frame to the slave; ok: fraction that is meant to be served"""
    fc = fc or rng.choice(FCS)
    n = lib.size[FC_TAB[fc]]
    if rb(rng, ok):
        if fc in (5, 6):
            a = rng.choice([0, n - 1, rng.randrange(n)])
            v = rng.choice([0, 0xFF00]) if fc == 5 else some_reg(rng)
            return frame([sid, fc, a >> 8, a & 255, v >> 8, v & 255])
        mx = min(n, MAXQ[fc])
        if rb(rng, small):
            q = min(mx, rng.choice([1, 2, 3, 7, 8, 9, 15, 16, 17]))
        else:
            q = rng.choice([mx, max(1, mx - 1), rng.randrange(1, mx + 1)])
        a = rng.choice([0, n - q, rng.randrange(n - q + 1)])
        return s_frame(rng, sid, fc, a, q)
    k = rng.randrange(7)
    if k == 0:
        return frame([sid, rng.choice([0, 7, 8, 11, 14, 17, 20, 22, 23, 43, 65, 100, 127, 128, 129, 131, 144, 255,
                                       rng.randrange(256)])] + [rng.randrange(256) for _ in range(rng.choice([0, 1, 4, 4, 8]))])
    if fc in (5, 6):
        if k < 4 and fc == 5:
            v = rng.choice([1, 0xFF, 0xFF01, 0x00FF, 0x0100, 0xFFFF, 0x8000])
            a = rng.choice([0, n - 1, n, 0xFFFF])
        else:
            v = rng.choice([0, 0xFF00]) if fc == 5 else some_reg(rng)
            a = rng.choice([n, n + 1, n + 7, 0x100 + rng.randrange(n), 0x7FFF, 0x8000, 0xFFFF])
        return frame([sid, fc, a >> 8, a & 255, v >> 8, v & 255])
    mx = MAXQ[fc]
    if k in (1, 2):      # quantity
        q = rng.choice([0, mx + 1, mx + 2, 0x7FFF, 0x8000, 0xFFFF, mx + 8])
        a = rng.choice([0, n - 1, n, 0xFFFF, 1])
        return s_frame(rng, sid, fc, a, q, body=min(q, 8))
    if k in (3, 4):      # address
        q = rng.choice([1, 2, 8, min(n, mx), mx])
        a = rng.choice([max(0, n - q + 1), n, n + 1, 0xFFFF, 0xFFFF - q + 1, 0x10000 - q - 1 if q < 65535 else 0, 0x8000, 256, 0xFF00])
        return s_frame(rng, sid, fc, a & 0xFFFF, q)
    # byte count
    if fc in (15, 16):
        q = rng.choice([1, 2, 8, 9, min(n, mx)])
        q = min(q, n, mx)
        a = rng.choice([0, n - q])
        bc = (q + 7) // 8 if fc == 15 else 2 * q
        return s_frame(rng, sid, fc, a, q, bc=rng.choice([x for x in (0, bc + 1, bc - 1, q, bc * 2, 255 - 20) if x != bc and 0 <= x <= 230]))
    q = min(n, mx, rng.choice([1, 5, 9]))
    return s_frame(rng, sid, fc, rng.choice([0, n - q]), q)


def s_frame(rng, sid, fc, a, q, bc=None, body=None):
    h = [sid, fc, a >> 8 & 255, a & 255, q >> 8 & 255, q & 255]
    if fc <= 4:
        return frame(h)
    n = (min(q, 1968) + 7) // 8 if fc == 15 else 2 * min(q, 123)
    if body is not None:
        n = body
    if bc is None:
        bc = min(n, 246)
    d = [rng.randrange(256) for _ in range(bc)]
    return frame(h + [bc] + d)


def crc_of(bs, init=0xFFFF, poly=0xA001, refl=True, xor=0):
    """CRC-16 of any kind: what a wrong implementation might compute"""
    c = init
    for b in bs:
        if refl:
            c ^= b
            for _ in range(8):
                c = c >> 1 ^ poly if c & 1 else c >> 1
        else:
            c ^= b << 8
            for _ in range(8):
                c = (c << 1 ^ poly if c & 0x8000 else c << 1) & 0xFFFF
    return c ^ xor


def wrong_crcs(b):
    """trailers that are not the CRC of b, but what careless software might take for it"""
    c = crc16(b)
    lo, hi = c & 255, c >> 8
    res = [(hi, lo), (lo ^ 255, hi ^ 255), (0, 0), (255, 255), (lo, 0), (0, hi), (lo, 255), (255, hi), (lo, lo), (hi, hi), (lo ^ 255, hi), (lo, hi ^ 255),
           (lo ^ 1, hi), (lo, hi ^ 1), (lo ^ 128, hi), (lo, hi ^ 128), ((lo + 1) & 255, hi), (lo, (hi + 1) & 255), (hi ^ 255, lo ^ 255),
           (b[-1], b[-2] if len(b) > 1 else 0)]
    for v in (crc_of(b, 0), crc_of(b, xor=0xFFFF), crc_of(b, poly=0x8408), crc_of(b, poly=0x1021, refl=False), crc_of(b, poly=0x8005, refl=False),
              crc_of(b[1:]), crc_of(b[:-1]), crc_of(b[:6]), crc_of(b[:7]), crc_of(b + [0]), crc_of(b[:1]), crc_of(b[:2]), sum(b), -sum(b), crc_of(b[:4])):
        res += [(v & 255, v >> 8 & 255), (v >> 8 & 255, v & 255)]
    x = 0
    for y in b:
        x ^= y
    res += [(x, 0), (0, x), (x, x), (-sum(b) & 255, 0)]
    return [list(w) for w in dict.fromkeys(res) if w != (lo, hi)]


def s_short(rng, lib, sid):
    """a frame with a right CRC that is shorter than its function code requires"""
    fc = rng.choice(FCS)
    k = rng.randrange(4)
    if k == 0:
        f = s_req(rng, lib, sid, fc, ok=1, small=1)
        return frame(f[:rng.randrange(2, len(f) - 2)])
    if k == 1 and fc not in (15, 16):
        return frame([sid, fc])
    if k == 2:
        return frame([sid])
    n = lib.size[FC_TAB[fc]]
    if fc in (15, 16):
        q = min(n, rng.choice([2, 3, 9, 17]))
        bc = (q + 7) // 8 if fc == 15 else 2 * q
        return frame([sid, fc, 0, 0, 0, q, bc] + [rng.randrange(256) for _ in range(rng.randrange(0, bc))])
    f = s_req(rng, lib, sid, fc, ok=1, small=1)
    return frame(f[:rng.randrange(2, 6)])


def s_bad(rng, lib, sid):
    f = s_req(rng, lib, sid, ok=0.9)
    k = rng.randrange(8)
    if k == 7:
        return f[:-2] + rng.choice(wrong_crcs(f[:-2]))
    if k == 0:
        return [f[0]] + flip(rng, f[1:])
    if k == 1:
        return [f[0]] + flip(rng, f[1:], burst=True)
    if k == 2:
        return f[:rng.randrange(1, len(f))]
    if k == 3:
        o = rng.choice([x for x in (0, 255, sid ^ 1, sid ^ 128, (sid + 1) % 256) if x != sid])
        return frame([o] + f[1:-2])
    if k == 4:
        return f[:-1] + [f[-1] ^ (1 << rng.randrange(8))]
    if k == 5:
        return f[:-2] + [f[-2] ^ (1 << rng.randrange(8)), f[-1]]
    return f[1:]


def s_answered(rng, s, polls=2):
    """polls and lets the answer, if any, be transmitted"""
    s.settle(rng.choice([7, 7, 9]))
    if s.lib.pending(1):
        s.rpoll(2)
        s.lib.txdone(1)
        s.settle(rng.choice([7, 8]))


def s_drain(rng, s):
    s.lib.txdone(1)
    s.settle()
    s.lib.t15(1)
    s.lib.t35(1)
    s.settle()
    s.lib.txdone(1)
    s.settle()
    f = s_req(rng, s.lib, s.sid, ok=1, small=1)
    s.recv(f, 1)
    s_answered(rng, s)
    s.lib.end()


def s_app(rng, s):
    lib = s.lib
    t = rng.choice(TABS)
    a = rng.randrange(lib.size[t])
    v = -1 if rb(rng, 0.1) else (rng.randrange(2) if t in ("coil", "din") else some_reg(rng))
    lib.app(t, a, v, rb(rng, 0.3))


def s_again(rng, s, f):
    """the same request once more, after the application has perhaps changed what it is about"""
    lib = s.lib
    t = FC_TAB[f[1]]
    a = f[2] * 256 + f[3]
    q = f[4] * 256 + f[5] if f[1] in MAXQ else 1
    for _ in range(rng.choice([0, 1, 1, 2])):
        i = a + rng.randrange(max(1, min(q, 2000)))
        if i < lib.size[t]:
            lib.app(t, i, rng.randrange(2) if t in ("coil", "din") else some_reg(rng), rb(rng, 0.3))
    if f[1] in (6, 16) and rb(rng, 0.3):
        f = frame([f[0], f[1], f[2], f[3]] + (f[4:7] if f[1] == 16 else []) + [rng.randrange(256) for _ in (f[7:-2] if f[1] == 16 else f[4:6])])
    return f


def s_mix(rng, lib, kinds, n, miss=0, polls=2, app_p=0.2, ok=0.6, fcs=None, small=0.7):
    s = s_start(rng, lib, miss)
    for _ in range(n):
        k = rng.choice(kinds)
        if rb(rng, app_p):
            s_app(rng, s)
        if k == "req":
            if s.last and rb(rng, 0.2):
                s.recv(s_again(rng, s, s.last), polls)
            else:
                s.last = s_req(rng, lib, s.sid, rng.choice(fcs) if fcs else None, ok, small)
                s.recv(s.last, polls)
                if s.last[1] not in FC_TAB:
                    s.last = None
        elif k == "short":
            s.recv(s_short(rng, lib, s.sid), polls)
        elif k == "bad":
            s.recv(s_bad(rng, lib, s.sid), polls)
        elif k == "ferr":
            f = s_req(rng, lib, s.sid, ok=0.9)
            s.recv(f, polls, ferr=rng.randrange(2) if len(f) > 5 else 0, n=rng.choice([1, 2]))
        elif k == "noise":
            noise(rng, s, s_req(rng, lib, s.sid, ok=1), rng.randrange(1, 6))
        elif k == "split":
            split(rng, s, s_req(rng, lib, s.sid, ok=0.9))
        elif k == "over":
            f = s_req(rng, lib, s.sid, ok=0.9)
            s.recv(frame(f[:-2] + [rng.randrange(256) for _ in range(rng.randrange(1, 4))])[:255], polls)
        if rb(rng, app_p):
            s_app(rng, s)
        s_answered(rng, s, polls)
    s_drain(rng, s)


def g_s_clean(rng, lib):
    s_mix(rng, lib, ["req"], 6, ok=0.95, small=0.5)


def g_s_read(rng, lib):
    s_mix(rng, lib, ["req"], 6, ok=0.97, fcs=[1, 2, 3, 4], app_p=0.8, small=0.5)


def g_s_write(rng, lib):
    s_mix(rng, lib, ["req"], 7, ok=0.9, fcs=[5, 6, 15, 16, 15, 16], app_p=0.2, small=0.6)


def g_s_exc(rng, lib):
    s_mix(rng, lib, ["req"], 8, ok=0.2)


def g_s_missing(rng, lib):
    s_mix(rng, lib, ["req"], 8, ok=0.85, miss=rng.choice([1, 2, 3]), app_p=0.4)


def g_s_short(rng, lib):
    s_mix(rng, lib, ["short", "short", "req"], 8, ok=0.9, small=1)


def g_s_bad(rng, lib):
    s_mix(rng, lib, ["bad", "bad", "ferr", "req", "req", "split"], 7, ok=0.85, small=0.9)


def g_s_noise(rng, lib):
    s_mix(rng, lib, ["noise", "noise", "bad", "ferr", "short", "req", "req", "over", "split"], 7, ok=0.85, small=0.95)


def g_s_spread(rng, lib):
    """polls spread over the reception in all ways"""
    s_mix(rng, lib, ["req"], 6, ok=0.85, polls=rng.choice([0, 1, 3, 4]), small=0.9)


def g_s_tx(rng, lib):
    """things happen while the slave is transmitting"""
    s = s_start(rng, lib, 0)
    for _ in range(rng.randrange(3, 6)):
        s.recv(s_req(rng, lib, s.sid, ok=0.85, small=0.95), 1)
        for _ in range(7):
            if lib.pending(1):
                break
            s.poll(1)
        for _ in range(rng.randrange(0, 4)):
            k = rng.randrange(6)
            if k == 0:
                s.recv(s_req(rng, lib, s.sid, ok=0.9, small=1), 2)
            elif k == 1:
                lib.ferr(1)
            elif k == 2:
                s.recv(s_bad(rng, lib, s.sid), 1)
            elif k == 3:
                noise(rng, s, s_req(rng, lib, s.sid, ok=1), 2)
            elif k == 4:
                s.poll(rng.choice([1, 3, 7]))
            else:
                lib.t35(1)
        if rb(rng, 0.3):
            lib.rx(1, s_req(rng, lib, s.sid, ok=1, small=1)[:rng.randrange(1, 8)])
        lib.txdone(1)
        s.rpoll(2)
        if rb(rng, 0.5):
            lib.t15(1)
            lib.t35(1)
        s.settle(8)
        if lib.pending(1):
            lib.txdone(1)
            s.settle(8)
    s_drain(rng, s)


def g_s_chaos(rng, lib):
    if rb(rng, 0.15):
        lib.sync(1, 1)
    s = s_start(rng, lib, 0)
    for _ in range(rng.randrange(50, 110)):
        k = rng.randrange(12)
        if k < 4:
            s.poll(rng.choice([1, 1, 2, 7]))
        elif k == 4:
            lib.t15(1)
        elif k in (5, 6):
            lib.t35(1)
        elif k == 7 and rb(rng, 0.5):
            lib.ferr(1)
        elif k == 8:
            lib.txdone(1, dup=rb(rng, 0.3))
        elif k == 9:
            s_app(rng, s)
        else:
            f = s_req(rng, lib, s.sid, ok=0.8, small=1) if rb(rng, 0.7) else s_bad(rng, lib, s.sid)
            if rb(rng, 0.3):
                lib.rx(1, f[:rng.randrange(1, len(f) + 1)])
            elif rb(rng, 0.3):
                lib.rx(1, f)
            else:
                s.recv(f, 1)
    s_drain(rng, s)


def g_s_cycle(rng, lib):
    """a master that asks the same few things again and again while the application's data change now and then"""
    s = s_start(rng, lib, 0)
    N = rng.choice([1, 2, 2, 3])
    reqs = [s_req(rng, lib, s.sid, ok=0.9, small=0.7) for _ in range(N)]
    for i in range(rng.randrange(8, 15)):
        k = i % N
        f = reqs[k]
        x = rng.random()
        if f[1] in FC_TAB and x < 0.35:
            f = reqs[k] = s_again(rng, s, f)
        elif f[1] in FC_TAB and x < 0.5:        # an item of the table near what is asked
            t = FC_TAB[f[1]]
            a = (f[2] * 256 + f[3] + rng.choice([0, 0, 1, -1, 7, 8])) % 65536
            if a < lib.size[t]:
                lib.app(t, a, rng.choice([-1, 0, 1]) if rb(rng, 0.5) else (rng.randrange(2) if t in ("coil", "din") else some_reg(rng)), rb(rng, 0.3))
        if x > 0.9:
            s.recv(damaged(rng, f), 2)
            s_answered(rng, s)
        s.recv(f, 2)
        s_answered(rng, s)
    s_drain(rng, s)


def g_s_sync(rng, lib):
    lib.sync(1, 1)
    s_mix(rng, lib, ["req", "req", "req", "bad", "short", "noise"], 7, ok=0.8, small=0.9)


def g_s_long(rng, lib):
    s = s_start(rng, lib, 0)
    for _ in range(rng.randrange(2, 5)):
        n = rng.choice([250, 253, 254, 255, 256])
        k = rng.randrange(5)
        if k == 0:
            g = [s.sid] + [rng.randrange(256) for _ in range(n - 1)]
        elif k == 1:
            g = frame([s.sid, rng.choice([15, 16]), 0, 0, 0, 8, 255] + [rng.randrange(256) for _ in range(n - 9)])
        elif k == 2:
            g = s_req(rng, lib, s.sid, rng.choice([15, 16]), ok=1, small=0)
        elif k == 3:
            g = frame([s.sid, rng.choice([1, 3, 99, 16])] + [rng.randrange(256) for _ in range(n - 4)])
        else:
            g = frame([s.sid, 16, 0, 0, 0, 1, 2, 0, 1] + [0] * (n - 11))
        s.recv(g[:255], 1)
        s_answered(rng, s)
        if rb(rng, 0.6):
            s.recv(s_req(rng, lib, s.sid, ok=0.8), 1)
            s_answered(rng, s)
    s_drain(rng, s)


def g_s_reinit(rng, lib):
    s = s_start(rng, lib, 0)
    for _ in range(rng.randrange(1, 4)):
        for _ in range(rng.randrange(0, 3)):
            s.recv(s_req(rng, lib, s.sid, ok=0.8, small=1) if rb(rng, 0.7) else s_bad(rng, lib, s.sid), 1)
            s_answered(rng, s)
        old = s.sid
        k = rng.randrange(7)
        f = s_req(rng, lib, old, ok=0.9, small=1)
        if k == 0:
            s.recv(f, 1)
        elif k == 1:
            s.recv(f, 1, t35=False)
        elif k == 2:
            s.recv(f, 1, t15=False, t35=False)
        elif k == 3:
            s.recv(f, 1)
            s.settle()            # transmitting
        elif k == 4:
            lib.ferr(1)
        elif k == 5:
            lib.rx(1, f[:4])
            lib.t15(1)
            s.rpoll(2)
        mode = 0 if rb(rng, 0.75) else rng.choice([1, 2, 9])
        s.sid = old if rb(rng, 0.25) else rng.choice([x for x in (old ^ 1, some_id(rng), 7, 200, 0, 0, 255, 248) if x != old])
        lib.s_init(s.sid, mode, some_baud(rng), rng.choice([0, 1, 2]))
        if mode != 0:
            s.poll(2)
            s.recv(s_req(rng, lib, s.sid, ok=1, small=1), 1)
            s.poll(7)
            lib.s_init(s.sid, 0, some_baud(rng), rng.choice([0, 1, 2]))
        if rb(rng, 0.3):
            lib.t15(1)
            lib.t35(1)
            s.settle()
        elif rb(rng, 0.4):
            s.settle()
        if rb(rng, 0.6) and old != s.sid:
            s.recv(s_req(rng, lib, old, ok=1, small=1), 1)
            s_answered(rng, s)
        s.recv(s_req(rng, lib, s.sid, ok=0.85, small=1), 1)
        s_answered(rng, s)
        s.recv(s_req(rng, lib, s.sid, ok=0.85, small=1), 1)
        s_answered(rng, s)
    s_drain(rng, s)


# ------------------------------------------------------------------ system
def system(rng, lib, loss=0.0, corrupt=0.0, nreq=5, miss=0, foreign_p=0.1):
    m = m_start(rng, lib)
    lib.setup_tables(rand_tabs(rng, lib, miss))
    s = Side(lib, 1, rng)
    s.sid = some_id(rng)
    lib.s_init(s.sid, 0, 9600, 0)
    lib.connect(loss == 0 and corrupt == 0)
    T = lib.cfg["T"]

    def req():
        fc = rng.choice(FCS)
        n = lib.size[FC_TAB[fc]]
        k = rng.random()
        if fc in (5, 6):
            a = rng.randrange(n) if k < 0.85 else rng.choice([n, n + 5, 0xFFFF])
            q = 1
        else:
            mx = min(n, MAXQ[fc])
            q = rng.choice([1, 2, 8, 9, 16, 17, mx, mx - 1 or 1, rng.randrange(1, mx + 1)])
            q = max(1, min(q, mx))
            a = rng.choice([0, n - q, rng.randrange(n - q + 1)]) if k < 0.85 else rng.choice([n, n - q + 1, 0xFFFF])
        if k > 0.97:
            q = 0
        i = s.sid if rb(rng, 0.93) else (s.sid % 255) + 1
        return lib.m_req(fc, a, q, i, vals_for(rng, fc, max(q, 1)))

    def carry(src, dst):
        """what is transmitted on one side arrives, perhaps damaged, on the other"""
        f = src.tx
        lib.txdone(src.p)
        (lib.m_poll if src.p == 0 else lib.s_poll)(rng.choice([1, 2]))
        if rb(rng, loss):
            return
        if rb(rng, corrupt):
            f = flip(rng, f, burst=rb(rng, 0.4)) if rb(rng, 0.8) else f[:rng.randrange(1, len(f))]
        dst.recv(f, rng.choice([0, 1, 2]), ferr=0 if rb(rng, corrupt / 4) else None, n=rng.choice([1, 1, 2]))
        dst.settle()

    left = nreq
    for _ in range(nreq * (lib.cfg["R"] + 3)):
        if left <= 0 and not lib.pending(0):
            break
        for _ in range(rng.randrange(0, 3)):
            if left > 0 and req() == 0:
                left -= 1
        if rb(rng, 0.3):
            t = rng.choice(TABS)
            lib.app(t, rng.randrange(lib.size[t]), rng.randrange(2) if t in ("coil", "din") else some_reg(rng))
        m.poll(8)
        if not lib.pending(0):
            continue
        carry(m, s)
        if lib.pending(1):
            if rb(rng, 0.3):
                lib.m_tick(rng.randrange(0, max(1, T - 3)))
            if rb(rng, 0.2):
                t = rng.choice(TABS)
                lib.app(t, rng.randrange(lib.size[t]), rng.randrange(2) if t in ("coil", "din") else some_reg(rng))
            carry(s, m)
            m.poll(8)
            s.settle()
        else:
            s.settle()
            m.poll(2)
            if not lib.pending(0):
                lib.m_tick(T)
                m.poll(7)
    lib.txdone(1)
    s.settle()
    m_drain(rng, m)


def g_y_clean(rng, lib):
    system(rng, lib, miss=rng.choice([0, 0, 1]))


def g_y_lossy(rng, lib):
    system(rng, lib, loss=0.15, corrupt=0.25, nreq=5)


def g_y_noisy(rng, lib):
    system(rng, lib, loss=0.05, corrupt=0.6, nreq=4)


def g_y_missing(rng, lib):
    system(rng, lib, miss=rng.choice([1, 2, 3]), nreq=6)


# crc: many damaged frames on both sides
def g_m_crc(rng, lib):
    s = m_start(rng, lib)
    for _ in range(3):
        m_request(rng, s, small=0.9)
        for _ in range(lib.cfg["R"] + 1):
            if not lib.pending(0):
                m_sent(rng, s)
            lib.txdone(0)
            s.poll(1)
            f = answer(rng, s.tx) if rb(rng, 0.7) else exception(rng, s.tx)
            s.recv([f[0]] + flip(rng, f[1:], burst=rb(rng, 0.4)) if rb(rng, 0.8) else flip(rng, f), 1)
            s.settle()
    m_drain(rng, s)


def g_s_crc(rng, lib):
    s = s_start(rng, lib, 0)
    for _ in range(10):
        f = s_req(rng, lib, s.sid, ok=1, small=0.9, fc=rng.choice([5, 6, 15, 16, 5, 6, 1, 3]))
        s.recv([f[0]] + flip(rng, f[1:], burst=rb(rng, 0.4)), 1)
        s_answered(rng, s)
    s_drain(rng, s)


def share(lib, items):
    """the part of items that a job with seed "k/n" is to do"""
    k, n = (int(x) for x in lib.seed.split("/"))
    return items[k::n]


def patterns(nbits):
    """all one- and two-bit errors"""
    return [(i,) for i in range(nbits)] + [(i, j) for i in range(nbits) for j in range(i)]


def flipped(f, bits):
    g = list(f)
    for b in bits:
        g[b // 8] ^= 1 << (b % 8)
    return g


def e_exchange(rng, s, r, f=None, polls=7):
    """one request with the answer f (a function of the request's frame); no repetitions are left over"""
    lib = s.lib
    if m_request(rng, s, r) != 0:
        return False
    s.poll(1)
    for _ in range(lib.cfg["R"] + 1):
        lib.txdone(0)
        s.poll(1)
        g = f(s.tx)
        lib.rx(0, g[:255])
        lib.t15(0)
        s.poll(1)
        lib.t35(0)
        s.poll(polls)
        if not lib.pending(0):
            break
    if not s.tx or g[0] != s.tx[0]:
        lib.m_tick(lib.cfg["T"])
        s.poll(polls)
    return True


def e_ask(s, f, polls=7):
    lib = s.lib
    lib.rx(1, f[:255])
    lib.t15(1)
    s.poll(1)
    lib.t35(1)
    s.poll(polls)
    if lib.pending(1):
        lib.txdone(1)
        s.poll(polls)


def one_of_each(rng):
    return [dict(fc=1, adr=5, qty=11, id=17, vals=[]), dict(fc=2, adr=0x1FF, qty=8, id=17, vals=[]),
            dict(fc=3, adr=0x80, qty=3, id=17, vals=[]), dict(fc=4, adr=0xFFFE, qty=2, id=17, vals=[]),
            dict(fc=5, adr=0xFF, qty=1, id=17, vals=[1]), dict(fc=6, adr=0x102, qty=1, id=17, vals=[0x8001]),
            dict(fc=15, adr=0x7F, qty=10, id=17, vals=[rng.randrange(2) for _ in range(10)]),
            dict(fc=16, adr=3, qty=2, id=17, vals=[0xFFFF, 1])]


def g_m_flip2(rng, lib):
    """every one- and two-bit error in an answer"""
    s = m_start(rng, lib)
    for bits in share(lib, patterns(64)):
        if not lib.pending(0) and not m_sent(rng, s):
            m_request(rng, s, dict(fc=6, adr=0x1234, qty=1, id=17, vals=[0xA55A]))
            s.poll(1)
        lib.txdone(0)
        s.poll(1)
        lib.rx(0, flipped(s.tx, bits))
        lib.t15(0)
        s.poll(1)
        lib.t35(0)
        s.poll(7)
        if not lib.pending(0):        # reported, or the address was altered
            lib.m_tick(lib.cfg["T"])
            s.poll(7)
    m_drain(rng, s)


def g_s_flip2(rng, lib):
    """every one- and two-bit error in a request"""
    s = s_start(rng, lib, 0, sid=17)
    f = frame([17, 6, 0, 1, 0xA5, 0x5A])
    for bits in share(lib, patterns(64)):
        e_ask(s, flipped(f, bits))
    s_drain(rng, s)


def quantities(lib):
    """every function and quantity, legal or just not; those at the limits first, then the longest"""
    return share(lib, sorted(((fc, q) for fc in MAXQ for q in range(MAXQ[fc] + 2)), key=lambda x: (abs(MAXQ[x[0]] - x[1]) if x[1] > 1 else 0, x[1] <= 1)))


def g_m_qty(rng, lib):
    """every quantity of every function, legal or just not, answered properly"""
    s = m_start(rng, lib)
    for fc, q in quantities(lib):
        e_exchange(rng, s, dict(fc=fc, adr=some_adr(rng), qty=q, id=any_id(rng), vals=vals_for(rng, fc, q)), lambda f: answer(rng, f))
    m_drain(rng, s)


def g_m_fc(rng, lib):
    """an otherwise proper answer with every function code"""
    s = m_start(rng, lib)
    for r, fc in share(lib, [(r, fc) for r in one_of_each(rng) for fc in range(256)]):
        e_exchange(rng, s, r, lambda f: frame([f[0], fc] + (answer(rng, f)[2:-2] if fc < 128 else [2])))
    m_drain(rng, s)


def g_m_len(rng, lib):
    """an answer cut or extended to every length, with a right CRC"""
    s = m_start(rng, lib)
    for r, n, x in share(lib, [(r, n, x) for r in one_of_each(rng) for n in list(range(1, 24)) + [64, 250, 251, 252, 253] for x in range(3)]):
        def f(g):
            b = (exception(rng, g) if x == 2 else answer(rng, g))[:-2]
            b = (b + [rng.randrange(256) for _ in range(n)])[:n]
            if x == 1 and n > 3 and g[1] <= 4:
                b[2] = (n - 3) & 255          # a byte count that fits the length
            return frame(b)
        e_exchange(rng, s, r, f)
    m_drain(rng, s)


def g_m_exccode(rng, lib):
    """every exception code"""
    s = m_start(rng, lib)
    for r, c in share(lib, [(r, c) for r in one_of_each(rng) for c in range(256)]):
        e_exchange(rng, s, r, lambda f: exception(rng, f, c))
    m_drain(rng, s)


def g_m_ids(rng, lib):
    """answers from every address to requests to every address (neighbouring ones more often)"""
    s = m_start(rng, lib)
    for i, d in share(lib, [(i, d) for i in range(256) for d in (0, 1, 2, 4, 8, 16, 32, 64, 128, 255, i)]):
        fc = rng.choice([3, 6])
        e_exchange(rng, s, dict(fc=fc, adr=2, qty=1, id=i, vals=vals_for(rng, fc, 1)), lambda f: frame([i ^ d] + answer(rng, f)[1:-2]))
        if d:
            e_exchange(rng, s, dict(fc=fc, adr=2, qty=1, id=i, vals=vals_for(rng, fc, 1)), lambda f: answer(rng, f))
    m_drain(rng, s)


def g_m_echo(rng, lib):
    """the echo of a write with one byte altered in every way"""
    s = m_start(rng, lib)
    for r, k, d in share(lib, [(r, k, d) for r in one_of_each(rng)[4:] for k in range(2, 6) for d in (1, 2, 4, 8, 16, 32, 64, 128, 255, 127)]):
        e_exchange(rng, s, r, lambda f: frame(f[:k] + [f[k] ^ d] + f[k + 1:6]))
    m_drain(rng, s)


def g_m_marathon(rng, lib):
    """several hundred exchanges in one run"""
    s = m_start(rng, lib)
    for _ in range(330):
        r = some_req(rng, small=1, fcs=[1, 3, 5, 6], adrs=[0, 1, 2])
        r["qty"] = 1
        r["vals"] = r["vals"][:1]
        k = rng.randrange(8)
        if k == 0:
            m_request(rng, s, illegal_req(rng))
        if k == 1:
            e_exchange(rng, s, r, lambda f: damaged(rng, answer(rng, f)))
        elif k == 2:
            e_exchange(rng, s, r, lambda f: foreign(rng, f))
        elif k == 3:
            e_exchange(rng, s, r, lambda f: exception(rng, f))
        else:
            e_exchange(rng, s, r, lambda f: answer(rng, f))
    m_drain(rng, s)


def g_m_many(rng, lib):
    """all the message slots of a long queue, all the repetitions of a large number"""
    s = m_start(rng, lib)
    N, R = lib.cfg["N"], lib.cfg["R"]
    for k in share(lib, range(16)):
        if k % 4 == 0:          # the queue is filled, some are refused, all are answered
            reqs = []
            for i in range(N + 2):
                r = some_req(rng, small=1)
                r["qty"], r["vals"] = min(r["qty"], 2), r["vals"][:2]
                reqs.append(r)
                m_request(rng, s, r)
            for i in range(N):
                m_exchange(rng, s, "good", 1, False)
                if i % 50 == 20:
                    m_request(rng, s, small=1)
        elif k % 4 == 1:        # every repetition is used up
            m_request(rng, s, small=1)
            for _ in range(R + 1):
                m_exchange(rng, s, "damaged", 1, False)
        elif k % 4 == 2:        # the last but some
            n = rng.choice([R, R - 1, 127, 128, 126])
            m_request(rng, s, small=1)
            for _ in range(n):
                m_exchange(rng, s, "damaged", 1, False)
            m_exchange(rng, s, rng.choice(["good", "exc", "silent"]), 1)
        else:                   # refused and accepted in turn at the limit
            for i in range(N):
                m_request(rng, s, small=1)
            for i in range(20):
                m_request(rng, s, small=1)
                m_exchange(rng, s, "good", 1, False)
                m_request(rng, s, illegal_req(rng))
                m_request(rng, s, small=1)
            for i in range(N):
                m_exchange(rng, s, "good", 1, False)
    for _ in range(N + 1):
        lib.txdone(0)
        lib.quiet(0)
        s.poll(7)
        lib.m_tick(lib.cfg["T"])
        s.poll(7)
    lib.end()


def words(alphabet, n):
    """all words of up to n letters, the longest first"""
    out, cur = [], [""]
    for _ in range(n):
        cur = [w + c for w in cur for c in alphabet]
        out = cur + out
    return out


def e_event(s, c, part, good, bad, other):
    """one letter of a word"""
    lib, p = s.lib, s.p
    if c == "F":
        lib.ferr(p)
    elif c == "1":
        lib.t15(p)
    elif c == "3":
        lib.t35(p)
    elif c == "P":
        s.poll(1)
    elif c == "D":
        lib.txdone(p, dup=True)
    elif c == "T":
        lib.m_tick(1)
    else:
        lib.rx(p, dict(B=part, G=good, C=bad, X=other)[c])


def words5(alphabet):
    """the words of five letters in which no letter but P follows itself"""
    return [w for w in words(alphabet, 5) if len(w) == 5 and not any(a == b != "P" for a, b in zip(w, w[1:]))]


def g_m_words(rng, lib):
    """every sequence of four things that can happen, while a request is transmitted or the master waits; a proper
    exchange afterwards"""
    m_words(rng, lib, words("F13BGCXPT", 4) + ["D" + w for w in words("F13GPD", 4)])


def g_m_words5(rng, lib):
    """sequences of five things, and of four during a repetition"""
    m_words(rng, lib, words5("F13GCXP") + ["C13PPDP" + w for w in words("F13GXPT", 4)] + ["C13PP" + w for w in words("F13GPD", 4)])


def m_words(rng, lib, ws):
    s = m_start(rng, lib)
    r = dict(fc=3, adr=2, qty=1, id=17, vals=[])
    for i, w in enumerate(share(lib, ws)):
        if not lib.pending(0) and not m_sent(rng, s):
            m_request(rng, s, r)
            s.poll(1)
        if w[0] != "D":
            lib.txdone(0)
            s.poll(1)
        f = s.tx
        g = answer(rng, f)
        for c in w:
            e_event(s, c, g[:2], g, g[:-1] + [g[-1] ^ 1], foreign(rng, f))
        lib.t15(0)
        lib.t35(0)
        for _ in range(2 * lib.cfg["R"] + 2):
            s.poll(7)
            if lib.pending(0):
                lib.txdone(0)
                s.poll(1)
            lib.m_tick(lib.cfg["T"])
        s.poll(7)
        e_exchange(rng, s, dict(r, adr=i % 256, fc=4), lambda f: answer(rng, f))
    m_drain(rng, s)


def g_s_words(rng, lib):
    """every sequence of four things that can happen, a proper request afterwards"""
    s_words(rng, lib, words("F13BGCXPD", 4) + ["G13PP" + w for w in words("F13BGPD", 4)])


def g_s_words5(rng, lib):
    """sequences of five things, and during a transmission"""
    s_words(rng, lib, words5("F13GCXPD") + ["G13PP" + w for w in words5("F13GPD")])


def s_words(rng, lib, ws):
    s = s_start(rng, lib, 0, 17)
    good = frame([17, 3, 0, 1, 0, 1])
    wr = frame([17, 6, 0, 0, 0, 1])
    for i, w in enumerate(share(lib, ws)):
        g = wr if i % 3 == 0 else good
        for c in w:
            e_event(s, c, g[:3], g, g[:-1] + [g[-1] ^ 1], frame([18] + g[1:-2]))
        lib.t15(1)
        lib.t35(1)
        s.poll(7)
        if lib.pending(1):
            lib.txdone(1)
            s.poll(7)
        v = i & 0xFFFF
        e_ask(s, frame([17, 6, 0, 0, v >> 8, v & 255]))
    s_drain(rng, s)


def g_m_stay(rng, lib):
    """the master stays in one state for long, while a great many polls or other things happen that should not change
    anything; afterwards a proper exchange"""
    s = m_start(rng, lib)
    gaps = ["idle", "tx", "wait", "mid", "got", "t15", "retx", "rewait"]
    its = [(g, "polls", n) for n in (300, 1000, 25000, 70000) for g in gaps]
    its += [(g, k, n) for n in (40, 300) for k in ("t15", "t35", "txdone", "ferr", "foreign", "byte", "pairs", "invalid", "full", "ticks") for g in gaps]
    r = dict(fc=3, adr=2, qty=1, id=17, vals=[])
    for i, (gap, kind, n) in enumerate(share(lib, its)):
        if kind in ("foreign", "byte", "pairs", "ticks"):
            n = min(n, 100) if i % 4 else n

        def stay(g):
            if g == gap:
                many_of(rng, s, n, kind, s.tx or [17, 3, 0, 2, 0, 1, 0, 0])
        if gap == "idle" and kind == "full":
            continue
        stay("idle")
        m_request(rng, s, r)
        s.poll(2)
        for a in range(2 if gap in ("retx", "rewait") else 1):
            stay("retx" if a else "tx")
            if gap == "tx" and i % 3 == 1:
                s.recv(answer(rng, s.tx), 1)
                s.poll(2)
            if gap == "tx" and i % 3 == 2:
                lib.m_tick(lib.cfg["T"])
                s.poll(2)
            lib.txdone(0)
            s.poll(1)
            stay("rewait" if a else "wait")
            g = answer(rng, s.tx)
            if gap in ("retx", "rewait") and not a:
                g[-1] ^= 1
            if gap == "mid":
                lib.rx(0, g[:3])
                stay("mid")
                lib.rx(0, g[3:])
            else:
                lib.rx(0, g)
            stay("got")
            lib.t15(0)
            s.poll(1)
            stay("t15")
            lib.t35(0)
            s.poll(4)
        for _ in range((lib.cfg["R"] + 1) * (lib.cfg["N"] + 1)):
            s.poll(7)
            if lib.pending(0):
                lib.txdone(0)
                s.poll(1)
            lib.quiet(0)
            s.poll(7)
            lib.m_tick(lib.cfg["T"])
        s.poll(7)
        e_exchange(rng, s, dict(r, adr=i % 256, fc=4), lambda f: answer(rng, f))
    m_drain(rng, s)


def g_s_stay(rng, lib):
    """the same on the slave"""
    s = s_start(rng, lib, 0, 17)
    gaps = ["idle", "mid", "got", "t15", "tx"]
    its = [(g, "polls", n) for n in (300, 1000, 25000, 70000) for g in gaps]
    its += [(g, k, n) for n in (40, 300) for k in ("t15", "t35", "txdone", "ferr", "foreign", "byte", "pairs", "bad", "app") for g in gaps]
    good = frame([17, 3, 0, 1, 0, 1])
    for i, (gap, kind, n) in enumerate(share(lib, its)):
        if kind in ("foreign", "byte", "pairs", "bad"):
            n = min(n, 100) if i % 4 else n
        g = frame([17, 6, 0, 0, 0, i & 255]) if i % 3 == 0 else good

        def stay(x):
            if x == gap:
                many_of(rng, s, n, kind, g)
        stay("idle")
        if gap == "mid":
            lib.rx(1, g[:3])
            stay("mid")
            lib.rx(1, g[3:])
        else:
            lib.rx(1, g)
        stay("got")
        lib.t15(1)
        s.poll(1)
        stay("t15")
        lib.t35(1)
        s.poll(4)
        stay("tx")
        if gap == "tx" and i % 2:
            s.recv(g, 1)
            s.poll(4)
        if lib.pending(1):
            lib.txdone(1)
            s.poll(7)
        lib.quiet(1)
        s.poll(7)
        if lib.pending(1):
            lib.txdone(1)
            s.poll(7)
        e_ask(s, frame([17, 6, 0, 0, i >> 8, i & 255]))
    s_drain(rng, s)


def g_s_marathon(rng, lib):
    s = s_start(rng, lib, 0)
    for _ in range(330):
        k = rng.randrange(8)
        e_ask(s, s_short(rng, lib, s.sid) if k == 0 else s_bad(rng, lib, s.sid) if k == 1 else s_req(rng, lib, s.sid, ok=0.8, small=1))
    s_drain(rng, s)


def g_s_qty(rng, lib):
    """every quantity of every function"""
    s = s_start(rng, lib, 0)
    for fc, q in quantities(lib):
        n = lib.size[FC_TAB[fc]]
        e_ask(s, s_frame(rng, s.sid, fc, rng.choice([0, max(0, n - q), rng.randrange(max(1, n - q + 1))]), q))
    s_drain(rng, s)


def g_s_bytecount(rng, lib):
    """every byte count of the multiple writes, with as many bytes or with as many as the quantity needs"""
    s = s_start(rng, lib, 0)
    its = []
    for fc in (15, 16):
        n = lib.size[FC_TAB[fc]]
        for q in sorted({0, 1, min(3, n), min(9, n), min(n, 123), min(n, 128)}):
            need = (q + 7) // 8 if fc == 15 else 2 * q
            its += [(fc, q, b, d) for b in range(256) for d in {b, need} if 9 + d <= 255]
    for fc, q, b, d in share(lib, its):
        a = rng.choice([0, lib.size[FC_TAB[fc]] - q]) if q <= lib.size[FC_TAB[fc]] else 0
        e_ask(s, frame([s.sid, fc, a >> 8, a & 255, q >> 8, q & 255, b] + [rng.randrange(256) for _ in range(d)]))
    s_drain(rng, s)


def g_s_range(rng, lib):
    """every address and quantity around the tables, every function"""
    s = s_start(rng, lib, 0)
    its = []
    for fc in FCS:
        n = min(lib.size[FC_TAB[fc]], 24)
        its += [(fc, a, q) for a in list(range(n + 2)) + [255, 256, 0x7FFF, 0x8000, 0xFFFF] for q in (range(n + 2) if fc in MAXQ else (0, 1))]
    for fc, a, q in share(lib, its):
        if fc in MAXQ:
            f = s_frame(rng, s.sid, fc, a, q)
        else:
            v = rng.choice([0, 0xFF00]) if fc == 5 else some_reg(rng)
            f = frame([s.sid, fc, a >> 8, a & 255, v >> 8, v & 255])
        e_ask(s, f)
    s_drain(rng, s)


def g_s_high(rng, lib):
    """addresses all over large tables"""
    s = s_start(rng, lib, 0)
    its = []
    for fc in FCS:
        n = lib.size[FC_TAB[fc]]
        adrs = [n - 1, n, n - 2, n // 2, 0, 255, 256] + [n - k for k in (3, 7, 8, 9, 15, 16, 17, 33, 65) if k < n]
        if n > 512:
            adrs += [1 << k for k in range(9, 16)] + [(1 << k) - 1 for k in range(9, 17)] + [0x8000 | x for x in (1, 8, 0x80, 0xFF, 0x100, 0x1000, 0x4000, 0x7F00)]
        else:
            adrs += [1, 7, 8, 9, 15, 16, 31, 32, 63, 64, 127, 128, 512, 0x8000, 0xFF00, 0xFFFF]
        for a in adrs:
            for q in ((1, 2, 3, 9, 17, min(300, MAXQ[fc]), MAXQ[fc], max(1, min(n - a, MAXQ[fc])), max(1, min(n - a + 1, MAXQ[fc]))) if fc in MAXQ else (1, 2)):
                its.append((fc, a, q))
    for fc, a, q in share(lib, its):
        if fc in MAXQ:
            f = s_frame(rng, s.sid, fc, a, q)
        else:
            v = rng.choice([0, 0xFF00]) if fc == 5 else some_reg(rng)
            f = frame([s.sid, fc, a >> 8, a & 255, v >> 8, v & 255])
        e_ask(s, f)
    s_drain(rng, s)


def g_s_grid(rng, lib):
    """every address and every quantity of the configured tables"""
    s = s_start(rng, lib, 0, 17)
    its = [(fc, a, q) for fc in FCS for a in range(lib.size[FC_TAB[fc]] + 1) for q in (range(lib.size[FC_TAB[fc]] - a + 2) if fc in MAXQ else (1,))]
    rng2 = type(rng)(1)
    rng2.shuffle(its)
    for fc, a, q in share(lib, its):
        if fc in MAXQ:
            f = s_frame(rng, 17, fc, a, q)
        else:
            v = rng.choice([0, 0xFF00]) if fc == 5 else some_reg(rng)
            f = frame([17, fc, a >> 8, a & 255, v >> 8, v & 255])
        e_ask(s, f, polls=3)
    s_drain(rng, s)


def g_s_fc(rng, lib):
    """every function code with every short length"""
    s = s_start(rng, lib, 0)
    for fc, n in share(lib, [(fc, n) for fc in range(256) for n in range(6)]):
        e_ask(s, frame([s.sid, fc] + [0, 0, 0, 1, 1, 1][:n]))
    s_drain(rng, s)


def g_s_len(rng, lib):
    """requests cut or extended to every length, with a right CRC, after a longer one"""
    s = s_start(rng, lib, 0)
    for fc, n in share(lib, [(fc, n) for fc in FCS for n in range(1, 20)]):
        f = s_req(rng, lib, s.sid, fc, ok=1, small=1)[:-2]
        e_ask(s, s_req(rng, lib, s.sid, rng.choice([15, 16]), ok=1, small=1))
        e_ask(s, frame((f + [rng.randrange(256) for _ in range(n)])[:n]))
    s_drain(rng, s)


def g_s_coilval(rng, lib):
    """the values of a single coil write"""
    s = s_start(rng, lib, 0)
    vs = [(h << 8) | l for h in range(256) for l in (0, 255)] + [(h << 8) | l for h in (0, 255) for l in range(256)]
    for v in share(lib, vs):
        e_ask(s, frame([s.sid, 5, 0, rng.randrange(lib.size["coil"] & 255), v >> 8, v & 255]))
    s_drain(rng, s)


def g_s_ids(rng, lib):
    """requests to every address, for a few own addresses"""
    s = None
    for own, i in share(lib, [(own, i) for own in (1, 2, 16, 17, 127, 128, 247, 255) for i in range(256)]):
        if s is None or s.sid != own:
            if s is None:
                s = s_start(rng, lib, 0, sid=own)
            else:
                s.sid = own
                lib.s_init(own, 0, 9600, 0)
                s.settle()
        e_ask(s, frame([i, 6, 0, 0, 0, rng.randrange(256)]))
    s_drain(rng, s)


def g_m_badcrc(rng, lib):
    """answers of every kind, short and long, with every wrong CRC somebody might compute"""
    s = m_start(rng, lib)
    rs = one_of_each(rng) + [dict(fc=fc, adr=2, qty=q, id=17, vals=[]) for fc, q in ((1, 2000), (2, 1999), (3, 125), (4, 124), (3, 60))] + [None]
    for r, k in share(lib, [(r, k) for k in range(56) for r in rs]):
        def f(g):
            b = (answer(rng, g) if r else exception(rng, g))[:-2]
            w = wrong_crcs(b)
            return b + w[k % len(w)]
        e_exchange(rng, s, r or rng.choice(rs[:8]), f)
    m_drain(rng, s)


def g_s_badcrc(rng, lib):
    """requests of every kind, short and long, with every wrong CRC somebody might compute"""
    s = s_start(rng, lib, 0)
    for fc, big, k in share(lib, [(fc, big, k) for k in range(56) for fc in FCS for big in (0, 1)]):
        n = lib.size[FC_TAB[fc]]
        q = min(n, MAXQ.get(fc, 1) if big else 3)
        a = rng.randrange(n - q + 1)
        if fc in (5, 6):
            v = rng.choice([0, 0xFF00]) if fc == 5 else some_reg(rng)
            f = frame([s.sid, fc, a >> 8, a & 255, v >> 8, v & 255])
        else:
            f = s_frame(rng, s.sid, fc, a, q)
        w = wrong_crcs(f[:-2])
        e_ask(s, f[:-2] + w[k % len(w)])
    s_drain(rng, s)


OUTCOMES = ("good", "exc", "to", "crc1", "crc", "misfit1", "ferr1", "foreign", "late")


def g_m_pairs(rng, lib):
    """every kind of request with every outcome, followed by every kind with every outcome"""
    s = m_start(rng, lib)
    kinds = [(r, o) for r in range(8) for o in OUTCOMES]
    for i, (x, y) in enumerate(share(lib, [(x, y) for x in kinds for y in kinds])):
        nq = i % 3 == 1                   # both queued before the first is sent
        rs = one_of_each(rng)
        two = [dict(rs[k], vals=vals_for(rng, rs[k]["fc"], rs[k]["qty"])) for k, _ in (x, y)]
        two[1]["id"] = (17, 17, 18)[i % 3]
        if i % 4 == 3:
            two[1]["adr"] = two[0]["adr"]
        if nq:
            for r in two:
                m_request(rng, s, r)
        for r, (_, o) in zip(two, (x, y)):
            if not nq:
                m_request(rng, s, r)
            s.poll(1)
            if not lib.pending(0) and not m_sent(rng, s):
                continue                  # (one slot only)
            for att in range(lib.cfg["R"] + 1):
                lib.txdone(0)
                s.poll(1)
                f = s.tx
                if o == "foreign":
                    s.recv(foreign(rng, f), 1)
                    s.poll(1)
                if o == "to" or (o == "late" and att == lib.cfg["R"]):
                    lib.m_tick(lib.cfg["T"])
                    s.poll(2)
                    break
                bad = o == "crc" or o == "late" or (att == 0 and o in ("crc1", "misfit1", "ferr1"))
                g = exception(rng, f) if o == "exc" else answer(rng, f) if not bad else misfit(rng, f) if o == "misfit1" else \
                    answer(rng, f) if o == "ferr1" else [f[0]] + flip(rng, answer(rng, f)[1:])
                lib.rx(0, g[:255])
                if bad and o == "ferr1":
                    lib.ferr(0)
                lib.t15(0)
                s.poll(1)
                lib.t35(0)
                s.poll(3)
                if not lib.pending(0) or not bad:
                    break
    m_drain(rng, s)


def g_s_pairs(rng, lib):
    """every kind of frame the slave may hear, followed by every kind"""
    s = s_start(rng, lib, 0, 17)

    def ok(fc, q=None, a=None):
        n = lib.size[FC_TAB[fc]]
        q = q if q is not None else min(n, 3)
        a = a if a is not None else rng.randrange(max(1, n - q + 1))
        if fc in (5, 6):
            v = rng.choice([0, 0xFF00]) if fc == 5 else some_reg(rng)
            return frame([17, fc, a >> 8, a & 255, v >> 8, v & 255])
        return s_frame(rng, 17, fc, a, q)

    def kind(fc, o):
        if o == "ok":
            return ok(fc)
        if o == "qty":
            return ok(fc, q=0) if fc in MAXQ else frame([17, fc | 64, 0, 0, 0, 1])
        if o == "adr":
            return ok(fc, a=lib.size[FC_TAB[fc]])
        if o == "crc":
            f = ok(fc)
            return [17] + flip(rng, f[1:])
        if o == "id":
            return frame([rng.choice([18, 0, 255, 16])] + ok(fc)[1:-2])
        return frame(ok(fc)[:rng.choice([2, 3, 4, 5])])       # short
    kinds = [(fc, o) for fc in FCS for o in ("ok", "qty", "adr", "crc", "id", "short")]
    for i, (x, y) in enumerate(share(lib, [(x, y) for x in kinds for y in kinds])):
        for k in (x, y):
            e_ask(s, kind(*k), polls=3)
        if i % 5 == 0:
            s_app(rng, s)
    s_drain(rng, s)


def edge_qty(rng, fc, mx=None):
    """a quantity near one of the limits somebody might have in mind"""
    mx = min(MAXQ[fc], mx or 65535)
    qs = [1, 1, 2, 3, 7, 8, 9, 15, 16, 17] if rb(rng, 0.85) else [31, 32, 33, 63, 64, 65, 100, 119, 120, 121, 127, 128, 129, mx - 1, mx]
    if rb(rng, 0.03):
        qs = [255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, mx - 8]
    return rng.choice([q for q in qs if 1 <= q <= mx] or [1])


def edge_adr(rng, q):
    """an address near one of the limits, or one with which the items end there"""
    e = rng.choice([0, 1, 2, 8, 0x10, 0x7F, 0x80, 0xFF, 0x100, 0x101, 0x3FF, 0x400, 0x7FF, 0x800, 0xFFF, 0x1000, 0x3FFF, 0x4000, 0x7FFF, 0x8000, 0xC000, 0xFF00, 0xFFFF, 0x10000])
    return max(0, min(65535, e - rng.choice([0, 0, q, q - 1, 1])))


EDGE_IDS = [0, 1, 2, 3, 17, 31, 32, 63, 64, 100, 127, 128, 129, 200, 246, 247, 248, 254, 255]
EDGE_CODES = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 127, 128, 129, 254, 255]


def edge_vals(rng, fc, q):
    if fc == 16:
        v = rng.choice([0, 1, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFF00, 0xFFFF])
        return [v] * q if rb(rng, 0.3) else vals_for(rng, fc, q)
    return vals_for(rng, fc, q)


def g_m_cross(rng, lib):
    """functions, slaves, addresses, quantities, values and outcomes near the limits in every combination of two (of three, all
    parts together), each transaction followed by any other"""
    s = m_start(rng, lib)
    past = []
    for i in range(340):
        fc = rng.choice(FCS)
        q = 1 if fc in (5, 6) else edge_qty(rng, fc)
        r = dict(fc=fc, adr=edge_adr(rng, q), qty=q, id=rng.choice(EDGE_IDS), vals=edge_vals(rng, fc, q))
        if rb(rng, 0.02):
            m_request(rng, s, illegal_req(rng))
        k = rng.choice(("good",) * 5 + ("exc",) * 6 + ("to", "to", "crc", "crc1", "misfit", "ferr1", "foreign", "late"))
        code = rng.choice(EDGE_CODES)
        if past and rb(rng, 0.5):         # an earlier one again, but for one thing
            o = past[-rng.choice([1, 1, 1, 2, 3])] if len(past) > 2 else past[-1]
            x = rng.randrange(7)
            new, r = r, dict(o[0])
            if x == 0:
                r["id"] = new["id"]
            elif x == 1:
                r["adr"] = min(65535, max(0, rng.choice([new["adr"], r["adr"] + 1, r["adr"] - 1, r["adr"] ^ 256, r["adr"] + r["qty"]])))
            elif x == 2 and r["fc"] not in (5, 6):
                r["qty"] = rng.choice([edge_qty(rng, r["fc"]), max(1, r["qty"] - 1), min(MAXQ[r["fc"]], r["qty"] + 1)])
                r["vals"] = (r["vals"] + vals_for(rng, r["fc"], r["qty"]))[:r["qty"]]
            elif x == 3:
                r["vals"] = tweak(rng, r["fc"], r["vals"])
            elif x == 4 and r["qty"] <= MAXQ.get({1: 2, 2: 1, 3: 4, 4: 3, 15: 1, 16: 3}.get(r["fc"], 0), 1):
                r["fc"] = {1: 2, 2: 1, 3: 4, 4: 3, 5: 6, 6: 5, 15: 1, 16: 3}[r["fc"]]
                r["vals"] = [min(1, v) for v in r["vals"]] if r["fc"] == 5 else r["vals"] if r["fc"] == 6 else []
            k, code = (k if x == 5 else o[1]), (code if x == 6 else o[2])
        past.append((r, k, code))
        m_request(rng, s, r)
        s.poll(1)
        if not lib.pending(0) and not m_sent(rng, s):
            continue
        for att in range(lib.cfg["R"] + 1):
            lib.txdone(0)
            s.poll(1)
            f = s.tx
            if k == "foreign":
                s.recv(foreign(rng, f), 1)
                s.poll(1)
            if k == "to" or (k == "late" and att == lib.cfg["R"]):
                if rb(rng, 0.3):
                    lib.rx(0, f[:rng.randrange(1, 4)])
                lib.m_tick(lib.cfg["T"])
                s.poll(2)
                break
            bad = k in ("crc", "late") or (att == 0 and k in ("crc1", "misfit", "ferr1"))
            g = exception(rng, f, code) if k == "exc" or (k == "crc1" and not bad and rb(rng, 0.4)) else \
                answer(rng, f) if not bad or k == "ferr1" else misfit(rng, f) if k == "misfit" else damaged(rng, answer(rng, f))
            lib.rx(0, g[:255])
            if bad and k == "ferr1":
                lib.ferr(0)
            lib.t15(0)
            s.poll(1)
            lib.t35(0)
            s.poll(3)
            if not lib.pending(0) or not bad:
                break
    m_drain(rng, s)


def g_s_cross(rng, lib):
    """the same for the slave: functions, its address, item addresses and quantities around the table's limits and the
    protocol's, values, kinds of frame, each followed by any other"""
    k, n = (int(x) for x in lib.seed.split("/"))
    s = s_start(rng, lib, 0 if k % 3 else None, EDGE_IDS[k % len(EDGE_IDS)])
    for i in range(400):
        fc = rng.choice(FCS)
        n = lib.size[FC_TAB[fc]]
        o = rng.choice(("ok",) * 9 + ("end", "end", "past", "adr", "qty", "crc", "id", "short", "bc", "fc", "again", "again", "again", "again"))
        q = 1 if fc in (5, 6) else edge_qty(rng, fc, n)
        if o == "qty":
            q = rng.choice([0, MAXQ[fc] + 1 if fc in MAXQ else 1, 0x100, 0x7FFF, 0x8000, 0xFF00, 0xFFFF])
        a = rng.choice([x for x in (0, 1, 7, 8, 127, 128, 255, 256, 257, 1023, 1024, 0x7FFF, 0x8000, n - q, n - q - 1, rng.randrange(max(1, n - q + 1))) if 0 <= x <= max(0, n - q)])
        if o in ("end", "past"):
            a = max(0, n - q) + (o == "past")
        if o == "adr":
            a = rng.choice([n, n + 1, 0x7FFF, 0x8000, 0xFF00, 0xFFFF, 0x10000 - q]) & 0xFFFF
        if fc in (5, 6):
            v = rng.choice([0, 0xFF00]) if fc == 5 else some_reg(rng)
            if fc == 5 and o == "qty":
                v = rng.choice([1, 0xFF, 0x100, 0xFF01, 0xFEFF, 0xFFFF, 0x8000, 0x7F00])
            f = frame([s.sid, fc, a >> 8, a & 255, v >> 8, v & 255])
        else:
            f = s_frame(rng, s.sid, fc, a, q, body=min(q, 8) if o == "qty" else None)
            if fc >= 15 and rb(rng, 0.3):
                v = rng.choice([0, 255, 128, 1])
                f = frame(f[:7] + [v] * (len(f) - 9))
        if o == "again":
            if getattr(s, "again", None):
                f = s.again
                x = rng.randrange(5)
                b = list(f[:-2])
                if x == 0:                # an earlier one again, but for one thing
                    b[3] = (b[3] + rng.choice([1, 255])) & 255
                elif x == 1 and b[1] <= 4:
                    b[5] = (b[5] + rng.choice([1, 255])) & 255
                elif x == 2 and b[1] <= 4:
                    b[1] = {1: 2, 2: 1, 3: 4, 4: 3}[b[1]]
                elif x == 3 and b[1] >= 15:
                    b = b[:rng.randrange(4, len(b))] + [rng.randrange(256)]
                    b = b + f[len(b):-2]
                f = s_again(rng, s, f) if b == f[:-2] else frame(b)
        elif o == "crc":
            f = [f[0]] + flip(rng, f[1:])
        elif o == "id":
            f = frame([rng.choice([x for x in (0, s.sid ^ 1, s.sid ^ 128, s.sid ^ 64, 255, 248) if x != s.sid])] + f[1:-2])
        elif o == "short":
            f = frame(f[:rng.randrange(1, len(f) - 2)])
        elif o == "bc" and fc >= 15:
            f = s_frame(rng, s.sid, fc, a, min(q, 100), bc=rng.choice([0, 1, 2, 3, 4, 127, 128, 200]))
        elif o == "fc":
            f = frame([f[0], rng.choice([x for x in range(256) if x not in FCS])] + f[2:-2])
        elif fc < 15 or len(f) < 40:
            s.again = f
        e_ask(s, f, polls=3)
        if rb(rng, 0.1):
            s_app(rng, s)
    s_drain(rng, s)


def g_m_vals(rng, lib):
    """every register value read and written, every pattern of eight inputs"""
    s = m_start(rng, lib)
    its = [(fc, v) for v in range(0, 65536, 123) for fc in (3, 4, 16)] + [(fc, v) for v in range(256) for fc in (1, 2, 15)]
    its += [(6, v) for v in [1 << k for k in range(16)] + [(1 << k) - 1 for k in range(17)] + [0xFF00, 0x00FF, 0xAAAA, 0x5555] + [x * 257 for x in range(0, 256, 5)]]
    for fc, v in share(lib, its):
        v &= 0xFFFF
        vs = [x & 0xFFFF for x in range(v, v + 123)]
        if fc in (3, 4):
            e_exchange(rng, s, dict(fc=fc, adr=some_adr(rng), qty=len(vs), id=17, vals=[]),
                       lambda f: frame([17, fc, 2 * len(vs)] + [b for x in vs for b in (x >> 8, x & 255)]))
        elif fc == 16:
            e_exchange(rng, s, dict(fc=16, adr=some_adr(rng), qty=len(vs), id=17, vals=vs), lambda f: answer(rng, f))
        elif fc == 6:
            e_exchange(rng, s, dict(fc=6, adr=v ^ 0x1234, qty=1, id=17, vals=[v]), lambda f: answer(rng, f))
        elif fc == 15:
            e_exchange(rng, s, dict(fc=15, adr=some_adr(rng), qty=24, id=17, vals=[(x >> k) & 1 for x in (v, v ^ 255, v * 7) for k in range(8)]), lambda f: answer(rng, f))
        else:
            e_exchange(rng, s, dict(fc=fc, adr=some_adr(rng), qty=24, id=17, vals=[]), lambda f: frame([17, fc, 3, v, v ^ 255, (v * 7) & 255]))
    m_drain(rng, s)


def g_m_adrs(rng, lib):
    """every item address read from, written to and in the report of an exception"""
    s = m_start(rng, lib)
    its = [(fc, a, min(MAXQ[fc], 65536 - a)) for fc in (1, 2, 3, 4, 15, 16) for a in range(0, 65536, MAXQ[fc])]
    its += [(fc, a, 1) for fc in FCS for a in sorted({(h << 8) | l for h in range(256) for l in (h, h ^ 255)} | {1 << k for k in range(16)})]
    for i, (fc, a, q) in enumerate(share(lib, its)):
        r = dict(fc=fc, adr=a, qty=q, id=17, vals=vals_for(rng, fc, q))
        e_exchange(rng, s, r, (lambda f: exception(rng, f)) if i % 4 == 3 and q == 1 else lambda f: answer(rng, f))
    m_drain(rng, s)


def g_s_vals(rng, lib):
    """every register value written, read and read as an input, every pattern of eight coils"""
    s = s_start(rng, lib, 0, 17)
    n = min(lib.size["hreg"], 123)
    its = [("reg", v) for v in range(0, 65536, n)] + [("coil", v) for v in range(256)]
    its += [(6, v) for v in [1 << k for k in range(16)] + [(1 << k) - 1 for k in range(17)] + [0xFF00, 0x00FF, 0xAAAA, 0x5555]]
    for k, v in share(lib, its):
        v &= 0xFFFF
        if k == "reg":
            a = rng.randrange(lib.size["hreg"] - n + 1)
            e_ask(s, frame([17, 16, a >> 8, a & 255, 0, n, 2 * n] + [b for x in range(v, v + n) for b in ((x >> 8) & 255, x & 255)]))
            e_ask(s, frame([17, 3, a >> 8, a & 255, 0, n]))
            b = rng.randrange(lib.size["inreg"])
            lib.app("inreg", b, v)
            e_ask(s, frame([17, 4, b >> 8, b & 255, 0, 1]))
        elif k == 6:
            a = rng.randrange(lib.size["hreg"])
            e_ask(s, frame([17, 6, a >> 8, a & 255, v >> 8, v & 255]))
            e_ask(s, frame([17, 3, a >> 8, a & 255, 0, 1]))
        else:
            m = min(lib.size["coil"], 24)
            a = rng.randrange(lib.size["coil"] - m + 1)
            e_ask(s, frame([17, 15, a >> 8, a & 255, 0, m, (m + 7) // 8] + [v, v ^ 255, (v * 7) & 255][:(m + 7) // 8]))
            e_ask(s, frame([17, 1, a >> 8, a & 255, 0, m]))
    s_drain(rng, s)


def by_crc(pre):
    """the two bytes after which a frame that begins with pre has the CRC wanted (there is exactly one pair for each)"""
    t = {}
    for v in range(65536):
        f = frame(pre + [v >> 8, v & 255])
        t[f[-2] << 8 | f[-1]] = v
    return t


CRCS = sorted({0, 0xFFFF, 0x0D0A, 0x1111} | {x << 8 for x in range(256)} | set(range(256)) | {x * 257 for x in range(256)} | {0x1100 | x for x in range(0, 256, 7)} |
              {0xFF00 | x for x in range(256)} | {x << 8 | 0xFF for x in range(256)})


def g_m_crcval(rng, lib):
    """requests and answers with every unusual value of the CRC"""
    s = m_start(rng, lib)
    wr, rd = by_crc([17, 6, 1, 2]), by_crc([17, 3, 2])
    for i, c in enumerate(share(lib, CRCS)):
        e_exchange(rng, s, dict(fc=6, adr=0x102, qty=1, id=17, vals=[wr[c]]), lambda f: answer(rng, f))
        v = rd[c]
        e_exchange(rng, s, dict(fc=3, adr=i, qty=1, id=17, vals=[]), lambda f: frame([17, 3, 2, v >> 8, v & 255]))
    m_drain(rng, s)


def g_s_crcval(rng, lib):
    """the same on the slave"""
    s = s_start(rng, lib, 0, 17)
    wr, rd = by_crc([17, 6, 0, 0]), by_crc([17, 3, 2])
    for c in share(lib, CRCS):
        v = wr[c]
        e_ask(s, frame([17, 6, 0, 0, v >> 8, v & 255]))
        v = rd[c]
        e_ask(s, frame([17, 6, 0, 0, v >> 8, v & 255]))
        e_ask(s, frame([17, 3, 0, 0, 0, 1]))
    s_drain(rng, s)


def y_start(rng, lib, miss=0, sid=None):
    m = m_start(rng, lib)
    lib.setup_tables(rand_tabs(rng, lib, miss))
    s = Side(lib, 1, rng)
    s.sid = sid or some_id(rng)
    lib.s_init(s.sid, 0, 9600, 0)
    return m, s


def y_exchange(m, s, r, there=None, back=None):
    """one request through both sides; there and back: what the line makes of the frames (None: lost)"""
    lib = m.lib
    if lib.m_req(r["fc"], r["adr"], r["qty"], r["id"], r["vals"]) != 0:
        return
    m.poll(1)
    for _ in range(lib.cfg["R"] + 1):
        for a, b, how in ((m, s, there), (s, m, back)):
            if lib.pending(a.p):
                f = a.tx
                lib.txdone(a.p)
                a.poll(2)
                g = how(f) if how else f
                if g:
                    lib.rx(b.p, g[:255])
                    lib.t15(b.p)
                    b.poll(1)
                    lib.t35(b.p)
                    b.poll(7)
        if not lib.pending(0):
            break
    lib.m_tick(lib.cfg["T"])
    m.poll(7)


def y_end(rng, m, s):
    m.lib.txdone(1)
    s.settle()
    m_drain(rng, m)


def g_y_qty(rng, lib):
    """every quantity of every function through both sides"""
    m, s = y_start(rng, lib)
    lib.connect(True)
    for fc, q in quantities(lib):
        n = lib.size[FC_TAB[fc]]
        a = rng.choice([0, max(0, n - q), rng.randrange(max(1, n - q + 1))])
        v = vals_for(rng, fc, q)
        for _ in range(2 if q in (1, MAXQ[fc]) else 1):
            y_exchange(m, s, dict(fc=fc, adr=a, qty=q, id=s.sid, vals=v))
            t = FC_TAB[fc]
            if a + q <= n and q:            # (the ends change)
                for i in {a, a + q - 1}:
                    lib.app(t, i, (1 - (lib.tabs[t][i] & 1)) if t in ("coil", "din") else some_reg(rng))
            v = [1 - x if fc == 15 else x ^ 0xFFFF for x in v]
        if q % 8 == 3:
            for t in TABS:
                lib.app(t, rng.randrange(lib.size[t]), rng.randrange(2) if t in ("coil", "din") else some_reg(rng))
    y_end(rng, m, s)


def g_y_flip(rng, lib):
    """every single-bit error, and some others, in a request or its answer on the line"""
    m, s = y_start(rng, lib, sid=17)
    lib.connect(False)
    rs = [dict(fc=6, adr=1, qty=1, id=17, vals=[0xA55A]), dict(fc=5, adr=3, qty=1, id=17, vals=[1]), dict(fc=3, adr=0, qty=2, id=17, vals=[]),
          dict(fc=16, adr=0, qty=2, id=17, vals=[1, 0xFFFE]), dict(fc=15, adr=2, qty=5, id=17, vals=[1, 0, 1, 1, 0]), dict(fc=1, adr=0, qty=5, id=17, vals=[]),
          dict(fc=3, adr=0x700, qty=2, id=17, vals=[])]
    for k, r, way in share(lib, [(k, r, w) for k in range(112) for r in rs for w in (0, 1, 2)]):
        r = dict(r, vals=tweak(rng, r["fc"], r["vals"]))

        def hit(f):
            n = 8 * len(f)
            return flipped(f, [k] if k < n else [k % n, (k * 7 + 3) % n] if (k % n) != (k * 7 + 3) % n else [k % n])
        y_exchange(m, s, r, hit if way != 1 else None, hit if way != 0 else None)
    y_end(rng, m, s)


# enumerations: the seed of a job is "part/parts"
ENUMS = {k: globals()["g_" + k] for k in ("m_flip2", "s_flip2", "m_qty", "m_fc", "m_len", "m_exccode", "m_ids", "m_echo", "s_qty", "s_range", "s_fc", "s_len",
                                          "s_coilval", "s_bytecount", "s_ids", "s_high", "m_badcrc", "s_badcrc", "m_many", "m_words", "s_words", "m_words5", "s_words5", "m_stay", "s_stay", "m_pairs", "s_pairs", "m_vals", "s_vals", "m_adrs", "s_grid",
                                          "m_crcval", "s_crcval", "m_cross", "s_cross",
                                          "y_qty", "y_flip")}
GENS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("g_") and k[2:] not in ENUMS}

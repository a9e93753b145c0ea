"""The checks: which parts of the machinery decide which property, and their verdict."""
import json, os, random, shutil, subprocess, sys, tempfile, time
from . import build, gen, run, tour, twin

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = run.SPEC
PROPS = {}
for _l in open(os.path.join(ROOT, "properties.jsonl")):
    _d = json.loads(_l)
    PROPS[_d["id"]] = _d

ALL_M = [g for g in gen.GENS if g.startswith("m_")]
ALL_S = [g for g in gen.GENS if g.startswith("s_")]
ALL_Y = [g for g in gen.GENS if g.startswith("y_")]

# generators whose histories bear most on a property; the others are run as well
FOCUS = {
    "M01": ["m_sweep", "m_reuse", "m_clean", "m_limits", "m_order", "m_ages", "m_cycle"],
    "M02": ["m_ages", "m_limits", "m_refused", "m_sweep", "m_nested", "m_eager"],
    "M03": ["m_refused", "m_limits", "m_chaos", "m_repeat", "m_nested", "m_exc", "m_ages", "m_chain", "m_eager", "m_bus"],
    "M04": ["m_order", "m_reuse", "m_limits", "m_nested", "m_refused", "m_isr", "m_ages", "m_chain", "m_eager"],
    "M05": ["m_chaos", "m_noise", "m_recover", "m_quick", "m_answers", "m_order", "m_isr", "m_own", "m_chain", "m_cycle", "m_eager", "m_bus"],
    "M06": ["m_chaos", "m_noise", "m_timeout", "m_recover", "m_sync", "m_order", "m_ages", "m_chain", "m_nested", "m_eager", "m_bus"],
    "M07": ["m_timeout", "m_foreign", "m_repeat", "m_chaos", "m_noise", "m_bus"],
    "M08": ["m_ages", "m_repeat", "m_answers", "m_misfit", "m_noise", "m_timeout", "m_sync"],
    "M09": ["m_noise", "m_chaos", "m_foreign", "m_crc", "m_recover", "m_repeat", "m_own"],
    "M10": ["m_foreign", "m_foreign", "m_noise", "m_timeout", "m_bus", "m_bus"],
    "M11": ["m_clean", "m_sweep", "m_quick", "m_answers", "m_reuse", "m_isr", "m_cycle", "m_cycle"],
    "M12": ["m_clean", "m_sweep", "m_quick", "m_answers", "m_reuse", "m_isr", "m_own", "m_cycle"],
    "M13": ["m_exc", "m_answers", "m_sweep", "m_quick", "m_isr", "m_cycle"],
    "M14": ["m_answers", "m_timeout", "m_repeat", "m_noise", "m_reuse", "m_misfit"],
    "M15": ["m_recover", "m_recover", "m_noise", "m_foreign", "m_chaos", "m_isr", "m_ages", "m_own", "m_cycle", "m_bus"],
    "M16": ["m_misfit", "m_misfit", "m_answers", "m_long", "m_repeat"],
    "M17": ["m_reinit", "m_reinit", "m_chaos", "m_forget", "m_before"],
    "S01": ["s_spread", "s_clean", "s_noise", "s_tx", "s_sync", "s_ages", "s_cycle", "s_bus"],
    "S02": ["s_bad", "s_noise", "s_tx", "s_chaos", "s_crc", "s_bus"],
    "S03": ["s_clean", "s_exc", "s_read", "s_missing", "s_write"],
    "S04": ["s_read", "s_clean", "s_spread", "s_cycle"],
    "S05": ["s_write", "s_write", "s_clean", "s_ages", "s_cycle"],
    "S06": ["s_exc", "s_exc", "s_missing", "s_write", "s_cycle"],
    "S07": ["s_exc", "s_bad", "s_read", "s_missing", "s_noise", "s_cycle"],
    "S08": ["s_noise", "s_tx", "s_chaos", "s_bad", "s_long", "s_sync", "s_ages", "s_bus", "s_bus"],
    "S09": ["s_short", "s_short", "s_noise", "s_long"],
    "S10": ["s_reinit", "s_reinit", "s_chaos", "s_forget", "s_bus", "s_before"],
    "X01": ["y_clean", "y_missing", "y_lossy"],
    "X02": ["y_lossy", "y_noisy", "y_clean"],
    "X03": ["y_noisy", "y_clean"],
    "X04": ["m_crc", "s_crc", "y_noisy"],
    "X05": ["m_long", "s_long", "s_exc", "m_sweep", "m_limits", "m_misfit", "s_short", "m_chaos", "s_chaos", "m_bus", "s_bus", "m_before"],
}
# enumerations (gen.ENUMS) for a property: (build, enumeration, parts); in the quick tier the
# share given last (a different one for every seed), in the thorough tier everything
ENUM = {
    "M01": [("default", "m_qty", 48, 16), ("small", "m_ids", 8, 2), ("norep", "m_vals", 16, 16), ("norep", "m_crcval", 8, 4), ("norep", "m_adrs", 24, 12), ("norep", "m_cross", 96, 16)],
    "M02": [("default", "m_qty", 48, 16), ("many", "m_many", 16, 2)],
    "M03": [("many", "m_many", 16, 8), ("one", "m_words", 16, 4), ("one", "m_stay", 8, 8), ("default", "m_pairs", 24, 6), ("default", "m_words5", 48, 4)],
    "M04": [("many", "m_many", 16, 4), ("default", "m_pairs", 24, 12)],
    "M05": [("default", "m_echo", 8, 8), ("one", "m_fc", 16, 4), ("one", "m_exccode", 16, 16), ("one", "m_words", 16, 8), ("one", "m_stay", 8, 8), ("one", "m_pairs", 24, 12), ("one", "m_words5", 48, 8), ("one", "m_cross", 96, 16)],
    "M06": [("one", "m_words", 16, 16), ("norep", "m_words", 16, 16), ("one", "m_stay", 8, 8), ("norep", "m_pairs", 24, 8), ("norep", "m_words5", 48, 8)],
    "M07": [("one", "m_words", 16, 8), ("one", "m_stay", 8, 8), ("one", "m_pairs", 24, 12), ("one", "m_words5", 48, 6)],
    "M08": [("default", "m_flip2", 16, 8), ("one", "m_len", 16, 8), ("norep", "m_badcrc", 16, 16), ("many", "m_many", 16, 8), ("one", "m_words", 16, 8), ("one", "m_stay", 8, 8), ("one", "m_pairs", 24, 24), ("one", "m_words5", 48, 8), ("one", "m_cross", 96, 16)],
    "M09": [("default", "m_flip2", 16, 16), ("norep", "m_badcrc", 16, 16), ("norep", "m_ids", 16, 8), ("one", "m_words", 16, 8), ("one", "m_stay", 8, 8), ("norep", "m_crcval", 8, 4), ("one", "m_pairs", 24, 8), ("one", "m_words5", 48, 8), ("norep", "m_cross", 96, 16)],
    "M10": [("norep", "m_ids", 16, 16), ("one", "m_stay", 8, 8), ("one", "m_pairs", 24, 8), ("norep", "m_cross", 96, 16)],
    "M11": [("default", "m_qty", 48, 16), ("norep", "m_len", 16, 4), ("norep", "m_vals", 16, 16), ("one", "m_pairs", 24, 12), ("norep", "m_adrs", 24, 24), ("norep", "m_cross", 96, 24)],
    "M12": [("default", "m_qty", 48, 16), ("norep", "m_echo", 8, 8), ("one", "m_pairs", 24, 12), ("norep", "m_adrs", 24, 12), ("norep", "m_cross", 96, 24)],
    "M13": [("default", "m_exccode", 16, 16), ("norep", "m_fc", 16, 8), ("one", "m_pairs", 24, 12), ("norep", "m_adrs", 24, 12), ("norep", "m_cross", 96, 32)],
    "M14": [("one", "m_len", 16, 8), ("norep", "m_fc", 16, 4), ("default", "m_ids", 16, 4), ("one", "m_pairs", 24, 24), ("one", "m_cross", 96, 24)],
    "M15": [("one", "m_words", 16, 16), ("one", "m_stay", 8, 8), ("one", "m_pairs", 24, 24), ("norep", "m_crcval", 8, 8), ("one", "m_words5", 48, 12), ("one", "m_cross", 96, 16)],
    "M16": [("norep", "m_fc", 16, 16), ("default", "m_len", 16, 16), ("default", "m_echo", 8, 8), ("one", "m_pairs", 24, 8), ("norep", "m_cross", 96, 24)],
    "S01": [("small", "s_range", 16, 8), ("wide", "s_high", 24, 8), ("small", "s_words", 16, 16), ("small", "s_stay", 8, 8), ("small", "s_pairs", 16, 16), ("default", "s_crcval", 8, 8), ("default", "s_high", 24, 6), ("small", "s_words5", 48, 8), ("small", "s_cross", 96, 16)],
    "S02": [("default", "s_ids", 8, 8), ("small", "s_flip2", 16, 8), ("big", "s_badcrc", 16, 16), ("small", "s_words", 16, 16), ("small", "s_stay", 8, 8), ("one", "s_pairs", 16, 16), ("one", "s_words5", 48, 8), ("small", "s_cross", 96, 16)],
    "S03": [("small", "s_range", 16, 16), ("default", "s_fc", 16, 8), ("small", "s_pairs", 16, 16), ("default", "s_crcval", 8, 2), ("default", "s_high", 24, 8), ("big", "s_cross", 96, 24)],
    "S04": [("small", "s_range", 16, 16), ("big", "s_qty", 48, 12), ("wide", "s_high", 24, 8), ("big", "s_vals", 16, 16), ("small", "s_pairs", 16, 8), ("default", "s_high", 24, 8), ("default", "s_grid", 120, 12), ("big", "s_cross", 96, 24)],
    "S05": [("small", "s_range", 16, 16), ("big", "s_qty", 48, 12), ("default", "s_coilval", 8, 4), ("wide", "s_high", 24, 8), ("big", "s_vals", 16, 16), ("small", "s_pairs", 16, 8), ("default", "s_high", 24, 8), ("default", "s_grid", 120, 12), ("big", "s_cross", 96, 24)],
    "S06": [("small", "s_range", 16, 16), ("default", "s_range", 32, 8), ("one", "s_fc", 16, 16), ("default", "s_coilval", 8, 8), ("default", "s_qty", 48, 8), ("wide", "s_high", 24, 8), ("default", "s_bytecount", 16, 16), ("small", "s_pairs", 16, 16), ("default", "s_high", 24, 8), ("default", "s_grid", 120, 12), ("big", "s_cross", 96, 24)],
    "S07": [("small", "s_range", 16, 16), ("default", "s_fc", 16, 4), ("small", "s_len", 8, 8), ("small", "s_words", 16, 8), ("small", "s_stay", 8, 8), ("small", "s_pairs", 16, 16), ("default", "s_high", 24, 8), ("small", "s_words5", 48, 6), ("small", "s_cross", 96, 24)],
    "S08": [("small", "s_words", 16, 16), ("small", "s_stay", 8, 8), ("one", "s_pairs", 16, 16), ("default", "s_crcval", 8, 4), ("one", "s_words5", 48, 16), ("small", "s_cross", 96, 16)],
    "S09": [("default", "s_len", 8, 8), ("small", "s_len", 8, 8), ("big", "s_len", 8, 8), ("big", "s_bytecount", 16, 8), ("small", "s_pairs", 16, 16), ("big", "s_cross", 96, 16)],
    "X01": [("big", "y_qty", 48, 8), ("default", "y_qty", 48, 4)],
    "X02": [("small", "y_flip", 16, 8), ("norep", "y_flip", 16, 8)],
    "X04": [("default", "m_flip2", 16, 16), ("default", "s_flip2", 16, 16), ("one", "m_badcrc", 16, 8), ("norep", "m_badcrc", 16, 8), ("big", "s_badcrc", 16, 16), ("norep", "m_crcval", 8, 8), ("default", "s_crcval", 8, 8)],
    "X05": [("default", "m_len", 16, 8), ("small", "s_len", 8, 8), ("one", "s_fc", 16, 4), ("default", "s_range", 32, 4), ("wide", "s_high", 24, 4), ("small", "s_bytecount", 16, 4), ("default", "s_high", 24, 6)],
}
MASTER_MC = ("MasterMC", dict(N=1, T=2, Rr=1, MaxSeg=6, Budget=3, Mut='"none"', Inits="FALSE", Sync="FALSE", Nest="FALSE", RxSet='{"good", "badcrc", "foreign"}', ReqSet='{"A", "X"}'), "NoBad Structure Agree")
SLAVE_MC = ("SlaveMC", dict(MaxSeg=16, Budget=4, Mut='"none"', Inits="FALSE", Sync="FALSE", RxSet='{"wR", "badcrc", "foreign"}', AppSet='{}'), "NoBad Agree Structure ReadOnly")
SYSTEM_MC = ("SystemMC", dict(N=1, T=2, Rr=1, Timely="TRUE", MaxReq=2, MaxLoss=1, MaxApp=1, ReqSet='{"rd", "over", "wr"}',
                              Faults='{"none", "lost", "crc", "ferr"}', Mut='"none"'), "NoBad Agree HalfDuplex")
def Set(*a):
    return "{%s}" % ", ".join('"%s"' % x for x in a)


# the thorough tier: larger and other instances of the same models
MC_DEEP = {
    "M": [dict(Budget=5), dict(N=2), dict(Sync="TRUE", Nest="TRUE", N=2, RxSet=Set("good", "badcrc")), dict(Rr=2, Budget=4), dict(Inits="TRUE"),
          dict(RxSet=Set("good", "foreign"), Budget=7),
          dict(RxSet=Set("good", "half1", "half2", "badcrc"), Budget=4),
          dict(RxSet=Set("good", "goodB", "foreign"), ReqSet=Set("A", "B"), N=2),
          dict(RxSet=Set("good", "exc", "misfit", "byte"), Budget=4),
          dict(RxSet=Set("good", "badcrc", "dup"), Inits="TRUE")],
    "S": [dict(Budget=5), dict(Inits="TRUE"), dict(Sync="TRUE", Budget=5), dict(RxSet=Set("wR"), Budget=7),
          dict(RxSet=Set("h1", "h2", "wR", "bcast"), Budget=5),
          dict(RxSet=Set("rdC", "rdH", "wMC"), AppSet=Set("a1", "a2")),
          dict(RxSet=Set("rdC", "rdCmiss", "rdCover", "rdH", "rdH0", "rdI", "rdD", "wC", "wCbad", "wRover", "wMR", "wMRbc", "wMC",
                         "wMCmiss", "unk", "short", "over"), Budget=3),
          dict(RxSet=Set("wR", "badcrc", "dup"), Budget=5, Inits="TRUE")],
    "X": [dict(N=2, ReqSet=Set("rd", "wr")), dict(MaxLoss=2), dict(Rr=2, MaxLoss=2, MaxReq=1),
          dict(N=2, MaxReq=2, ReqSet=Set("rd", "over", "wr", "miss")),
          dict(ReqSet=Set("wrs", "wrC", "rdC"), Faults=Set("none", "cut", "tail"))],
}
# mistakes put into the models, which the contract has to notice (keep35 is none: the next
# 1.5 character silence takes the flag back)
MUTANTS = {
    "M": [("leak", {}), ("eq1", {}), ("clr35", {}), ("noid", {}), ("nocrc", {}), ("norst", {}), ("rep+1", {}), ("keeprep", {}),
          ("t15keep", {}), ("t15empty", {}), ("keepfe", dict(RxSet=Set("good", "foreign"), Budget=7)),
          ("nofit", dict(RxSet=Set("good", "misfit"))), ("join", dict(RxSet=Set("good", "half1", "half2"), Budget=4)),
          ("anyrst", dict(RxSet=Set("good", "dup"), Budget=5))],
    "S": [("dirty", {}), ("anyid", {}), ("nocrc", {}), ("no35", {}), ("t15keep", {}), ("t15empty", {}),
          ("noexc2", dict(RxSet=Set("rdCover", "rdCmiss"))), ("wrongexc", dict(RxSet=Set("rdCover", "rdCmiss", "rdH0"))),
          ("short", dict(RxSet=Set("short", "byte", "over"))), ("keepfe", dict(RxSet=Set("wR"), Budget=7)),
          ("initkeep", dict(Inits="TRUE")), ("join", dict(RxSet=Set("h1", "h2"), Budget=5))],
    "X": [("nocrc", {}), ("no35", {})],
}
LIVE = dict(N=1, T=2, Rr=1, Noise=2, MaxReq=2, Mut='"none"', Sync="FALSE")
LIVE_DEEP = [dict(Noise=3), dict(N=2, Noise=3), dict(Noise=3, Sync="TRUE"), dict(Rr=2, Noise=3)]
LIVE_MUTANTS = [("eq1", {}), ("clr35", dict(Noise=4)), ("leak", {})]
Y_TOURS = ["y1", "y2", "y3"]
M_TOURS = ["m1", "m2", "m3", "m4", "m9", "ma", "mc"]
S_TOURS = ["s1", "s2", "s5", "s6", "s3", "s7", "s8"]
M_DEEP = ["m5", "m6", "m7", "m8", "mb"]           # sampled in the quick tier, in full in the thorough one
S_DEEP = ["s4"]
SAMPLE = 25000


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.side = prop[0]
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.violation = None
        self.also = set()
        self.sos = {}
        self.drift = 0

    # -------------------------------------------------------------- helpers
    def so(self, variant, asan=False):
        k = variant + ("_asan" if asan else "")
        if k not in self.sos:
            self.sos[k] = build.build(variant, self.tmp, asan)
        return self.sos[k]

    def left(self):
        """seconds left for this check"""
        return (780 if self.thorough else 240) - (time.time() - self.t0)

    def tlc(self, module, cfg, env=None, **kw):
        self.ntlc = getattr(self, "ntlc", 0) + 1
        p = run.tlc(module, cfg, env or {}, os.path.join(self.tmp, "meta%d" % self.ntlc), timeout=max(60, self.left() + 60), **kw)
        if p.returncode not in (0, 12, 13):
            sys.stdout.write(p.stdout[-3000:] + p.stderr[-2000:])
            raise RuntimeError("TLC failed on %s" % module)
        return p

    def cfg_file(self, consts, inv, spec="INIT Init\nNEXT Next\nVIEW View\n", K=4):
        path = os.path.join(self.tmp, "mc%d.cfg" % int(time.time() * 1e6))
        c = {} if K is None else dict(K=K)
        c.update(consts)
        with open(path, "w") as f:
            f.write("CONSTANTS\n" + "".join("%s = %s\n" % kv for kv in c.items()) + spec +
                    "INVARIANTS %s\nCHECK_DEADLOCK FALSE\n" % inv)
        return path

    def crc_check(self):
        """what the specification's CRC detects"""
        p = self.tlc("CrcMC", os.path.join(SPEC, "CrcMC.cfg"), workers=1)
        if p.returncode:
            raise RuntimeError("CrcMC fails")
        g, d = run.stats(p.stdout)
        self.cov["states"] += d
        self.cov["transitions"] += g
        self.cov.setdefault("models_checked", []).append("CrcMC: single-bit syndromes of 2040-bit frames")

    def model_check(self, mod, consts, inv, mutant=None):
        """the specification itself: does the model satisfy the contract?  (with a mistake in it: it must not)"""
        if mod == "MasterLive":
            spec, K = "SPECIFICATION Spec\nPROPERTY Progress\n", None
        else:
            spec, K = "INIT Init\nNEXT Next\nVIEW View\n" + ("" if mod == "SystemMC" else "CONSTRAINT Bound\n"), 4
        if self.thorough and self.left() < 150:
            self.cov.setdefault("models_skipped_for_time", []).append(mod + " " + (mutant or ""))
            return
        if mutant:
            consts = dict(consts, Mut='"%s"' % mutant)
        p = self.tlc(mod, self.cfg_file(consts, inv, spec, K), heap="8g")
        g, d = run.stats(p.stdout)
        if mutant:
            if not p.returncode:
                raise RuntimeError("the contract does not notice %s in %s" % (mutant, mod))
            self.cov.setdefault("model_mutants_noticed", []).append("%s %s" % (mod, mutant))
            return
        if p.returncode:
            print(p.stdout[-3000:])
            raise RuntimeError("the specification %s violates its own properties" % mod)
        self.cov["states"] += d
        self.cov["transitions"] += g
        self.cov.setdefault("models_checked", []).append("%s %s: %d states" % (mod, {k: v for k, v in consts.items() if k not in ("Mut",)}, d))

    def models(self):
        """the models: all behaviours of small instances"""
        side = self.side
        if side == "X" and self.prop not in ("X01", "X02", "X03"):
            return
        base = {"M": MASTER_MC, "S": SLAVE_MC, "X": SYSTEM_MC}[side]
        self.model_check(*base)
        if self.prop == "M06":
            self.model_check("MasterLive", LIVE, "Slots")
        if not self.thorough:
            return
        for d in MC_DEEP[side]:
            self.model_check(base[0], dict(base[1], **d), base[2])
        for mut, d in MUTANTS[side]:
            self.model_check(base[0], dict(base[1], **d), base[2], mut)
        if self.prop == "M06":
            for d in LIVE_DEEP:
                self.model_check("MasterLive", dict(LIVE, **d), "Slots")
            for mut, d in LIVE_MUTANTS:
                self.model_check("MasterLive", dict(LIVE, **d), "Slots", mut)

    # --------------------------------------------------------------- traces
    def judge(self, path, conf=True, cfg="Trace.cfg", what="run"):
        """lets TLC judge the recorded runs in a file; keeps the first violation of the property"""
        lines = open(path).read().splitlines()
        if not lines:
            return
        try:
            p = self.tlc("Trace", cfg, dict(TRACES=path, PROP=self.prop, CONF="1" if conf else "0"))
        except RuntimeError:
            if not conf:
                raise
            # the implementation models decide nothing: without them
            self.cov["judged_without_models"] = self.cov.get("judged_without_models", 0) + 1
            p = self.tlc("Trace", cfg, dict(TRACES=path, PROP=self.prop, CONF="0"))
        g, d = run.stats(p.stdout)
        nev = sum(l.count('"o":') for l in lines)
        self.cov["traces_validated_against_impl"] += len(lines)
        self.cov["trace_states_validated"] = self.cov.get("trace_states_validated", 0) + d
        self.drift += len(run.printed(p.stdout, "DRIFT"))
        cut = sum('"cut":' in l for l in lines)
        if cut:
            self.cov["runs_cut_short"] = self.cov.get("runs_cut_short", 0) + cut
        bad = []
        for v in run.printed(p.stdout, "BAD"):
            for b in v[3]:
                if b[0] == self.prop:
                    bad.append((v[2], v[1] - 1, b[1]))
                else:
                    self.also.add(b[0])
        if bad and not self.violation:
            i, t, why = min(bad)
            self.violation = dict(trace=json.loads(lines[t]), step=i, why=why, what=what, cfg=cfg)
        if p.returncode and not bad:
            raise RuntimeError("TLC reports a violation it did not print")

    def traces(self, jobs, asan=False, conf=True):
        for v in sorted({j[0] for j in jobs}):
            self.so(v, asan)
        path = os.path.join(self.tmp, "t%d.ndjson" % int(time.time() * 1e6))
        suffix = "_asan" if asan else ""
        sos = {v: self.sos[v + suffix] for v in {j[0] for j in jobs}}
        run.run_jobs(sos, jobs, self.tmp, path, asan=asan)
        first = open(path).readline()
        if first and len(self.cov["samples"]) < 2:
            t = json.loads(first)
            self.cov["samples"].append(dict(job=t["cfg"]["job"], events=t["ev"][:12]))
        self.cov["runs"] = self.cov.get("runs", 0) + len(jobs)
        self.judge(path, conf=conf)
        os.unlink(path)

    def jobs(self, n, focus, others, share=0.65, variants=None):
        """n runs: the generators in focus get their share, the others the rest"""
        vs = variants or list(build.VARIANTS)
        rng = random.Random("%s/%d/%s" % (self.prop, self.seed, getattr(self, "round", 0)))
        res = []
        for k in range(n):
            g = focus[k % len(focus)] if k < n * share or not others else others[k % len(others)]
            res.append((vs[k % len(vs)] if rng.random() < 0.5 else rng.choice(vs), g, "%d-%d" % (self.seed, rng.randrange(1 << 40))))
        return res

    def enums(self, full=False):
        rng = random.Random("enum/%d" % self.seed)
        res = []
        for v, name, parts, some in ENUM.get(self.prop, []):
            n = some * 3 // 4 if name.endswith("_qty") else 0        # (the limits are in the first parts)
            ks = range(parts) if full else sorted(list(range(n)) + rng.sample(range(n, parts), some - n))
            res += [(v, name, "%d/%d" % (k, parts)) for k in ks]
        return res

    def tours(self, names, sample=None):
        for n in names:
            if self.violation or self.left() < 60:
                return
            t = tour.load(n)
            v = tour.variant(t)
            so = self.so(v)
            idx = list(range(len(t["walks"])))
            if sample and len(idx) > sample:
                idx = sorted(random.Random("%s/%s/%d" % (n, self.prop, self.seed)).sample(idx, sample))
            steps, devs = tour.replay(so, t, idx, 8)
            self.cov["model_walks_replayed"] = self.cov.get("model_walks_replayed", 0) + len(idx)
            if len(idx) == len(t["walks"]):
                self.cov["model_transitions_replayed"] = self.cov.get("model_transitions_replayed", 0) + t["edges"]
            self.cov["replayed_steps"] = self.cov.get("replayed_steps", 0) + steps
            self.cov["traces_validated_against_impl"] += len(idx)
            if not devs:
                continue
            self.drift += len(devs)
            # runs that differ from the model are judged by the contract, with continuations
            seen, jobs = {}, []
            for j, st in devs:
                w = t["walks"][j]
                key = w[2 * st:2 * st + 2] if st >= 0 else "crash"
                seen[key] = seen.get(key, 0) + 1
                if seen[key] <= 12:
                    for k in range(tour.CONT):
                        jobs.append((v, "tour", [n, j, st, k]))
            jobs = jobs[:800]
            path = os.path.join(self.tmp, "tour.ndjson")
            run.TOURS[n] = t
            run.run_jobs({v: so}, jobs, self.tmp, path)
            self.judge(path, conf=False, cfg="TraceTour.cfg", what="model behaviour")

    # -------------------------------------------------------------- verdict
    def confirm(self):
        """the same run again, in a fresh process and alone"""
        v = self.violation
        job = v["trace"]["cfg"]["job"]
        path = os.path.join(self.tmp, "again.ndjson")
        if v.get("pair"):
            return True
        asan = v.get("asan", False)
        run.run_jobs({job[0]: self.so(job[0], asan)}, [tuple(job)], self.tmp, path, asan=asan)
        p = self.tlc("Trace", v["cfg"], dict(TRACES=path, PROP=self.prop, CONF="0"), workers=1)
        return p.returncode == 12

    def main(self):
        self.tmp = tempfile.mkdtemp(prefix="mbt.")
        try:
            try:
                self.explore()
            except build.BuildError as e:
                print(e)
                print("the library does not build")
                return 2
            rc = 0
            if self.violation:
                for _ in range(3):
                    if self.confirm():
                        rc = 1
                        break
                else:
                    raise RuntimeError("a violation could not be reproduced")
                v = self.violation
                rdir = os.path.join(ROOT, "replays")
                os.makedirs(rdir, exist_ok=True)
                rp = os.path.join(rdir, "%s.json" % self.prop)
                with open(rp, "w") as f:
                    json.dump(dict(property=self.prop, title=PROPS[self.prop]["title"], step=v["step"], why=v["why"], what=v["what"],
                                   monitor=v["cfg"], trace=v["trace"], pair=v.get("pair"), asan=v.get("asan", False)), f)
                print("%s: %s" % (self.prop, v["why"]))
                ev = v["trace"]["ev"][:v["step"]]
                for e in ev[-8:]:
                    print("   ", json.dumps(e)[:300])
                print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            self.evidence(rc)
            return rc
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)

    def evidence(self, rc):
        c = self.cov
        c["runs_differing_from_model"] = self.drift
        if self.also:
            c["other_properties_violated"] = sorted(self.also)
        c["exhaustive"] = False
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking", coverage=c,
                           assumptions=["the driver and the application call the library one call at a time (calls are atomic events of the specification)",
                                        "the line events and calls explored are those described in DESIGN.md"],
                           wall_s=round(time.time() - self.t0, 1), violations=rc), f, indent=1)

    # -------------------------------------------------------------- explore
    def explore(self):
        p, side = self.prop, self.side
        focus = FOCUS[p]
        if not self.thorough:
            self.models()
        if side == "M":
            self.tours(M_TOURS)
            self.tours(M_DEEP, None if self.thorough else SAMPLE)
            others, n = ALL_M, 300
        elif side == "S":
            self.tours(S_TOURS)
            self.tours(S_DEEP, None if self.thorough else SAMPLE)
            others, n = ALL_S, 420
        else:
            others, n = [], 160
            if p in ("X01", "X02", "X03"):
                self.tours(Y_TOURS)
            if p == "X04":
                self.crc_check()
            if p == "X04":
                others, n = ALL_M + ALL_S, 300
            if p == "X05":
                others, n = ALL_M + ALL_S + ALL_Y, 200
        if self.violation:
            return
        asan = p == "X05"
        self.traces(self.enums(self.thorough) + self.jobs(n, focus, others), asan=asan, conf=not asan)
        if self.violation:
            if asan:
                self.violation["asan"] = True
            return
        if p in ("M17", "S10", "X03"):
            twin.explore(self)
            if self.violation:
                return
        if self.thorough:
            self.models()
            self.deep(focus, others)

    def deep(self, focus, others):
        self.round = 0
        while self.left() > 90 and not self.violation:
            self.round += 1
            self.traces(self.jobs(600, focus, others), asan=self.prop == "X05", conf=self.prop != "X05")

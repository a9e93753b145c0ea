"""Builds the library under test, together with the harness, from /repo's working tree."""
import os, re, shutil, subprocess, sys

REPO = os.environ.get("MBT_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(os.path.dirname(HERE), "harness")

# Configurations: what a user may set in modbus_config.h.  None = the header as it is.
VARIANTS = {
    "default": None,
    # tables of four different sizes, all below the protocol limits
    "small": dict(MODBUS_MASTER_MAX_MSG_QUEUE_ITEMS=3, MODBUS_MASTER_RESP_TIME_OUT_MS=12,
                  MODBUS_MASTER_REQ_REPEAT_ON_ANY_ERROR=1, MAIN_APP_COILS_QTY=21,
                  MAIN_APP_DISCRET_INPUTS_QTY=13, MAIN_APP_INPUT_REG_QTY=6, MAIN_APP_HOLDING_REG_QTY=9),
    # tables of four different sizes, all above the protocol limits for one request
    "big": dict(MODBUS_MASTER_MAX_MSG_QUEUE_ITEMS=2, MODBUS_MASTER_RESP_TIME_OUT_MS=30,
                MODBUS_MASTER_REQ_REPEAT_ON_ANY_ERROR=2, MAIN_APP_COILS_QTY=2105,
                MAIN_APP_DISCRET_INPUTS_QTY=2050, MAIN_APP_INPUT_REG_QTY=131, MAIN_APP_HOLDING_REG_QTY=140),
    "one": dict(MODBUS_MASTER_MAX_MSG_QUEUE_ITEMS=1, MODBUS_MASTER_RESP_TIME_OUT_MS=5,
                MODBUS_MASTER_REQ_REPEAT_ON_ANY_ERROR=2, MAIN_APP_COILS_QTY=8,
                MAIN_APP_DISCRET_INPUTS_QTY=16, MAIN_APP_INPUT_REG_QTY=3, MAIN_APP_HOLDING_REG_QTY=2),
    "norep": dict(MODBUS_MASTER_MAX_MSG_QUEUE_ITEMS=4, MODBUS_MASTER_RESP_TIME_OUT_MS=8,
                  MODBUS_MASTER_REQ_REPEAT_ON_ANY_ERROR=0, MAIN_APP_COILS_QTY=17,
                  MAIN_APP_DISCRET_INPUTS_QTY=9, MAIN_APP_INPUT_REG_QTY=12, MAIN_APP_HOLDING_REG_QTY=5),
    # beyond 16 bits of time; many messages and repetitions; tables of 8-bit sizes and one more
    "slow": dict(MODBUS_MASTER_MAX_MSG_QUEUE_ITEMS=7, MODBUS_MASTER_RESP_TIME_OUT_MS=70001,
                 MODBUS_MASTER_REQ_REPEAT_ON_ANY_ERROR=5, MAIN_APP_COILS_QTY=256,
                 MAIN_APP_DISCRET_INPUTS_QTY=257, MAIN_APP_INPUT_REG_QTY=256, MAIN_APP_HOLDING_REG_QTY=257),
}

# the largest tables there can be: every address is used (only in enumerations)
EXTRA = {
    # many message slots, many repetitions
    "many": dict(MODBUS_MASTER_MAX_MSG_QUEUE_ITEMS=200, MODBUS_MASTER_RESP_TIME_OUT_MS=15,
                 MODBUS_MASTER_REQ_REPEAT_ON_ANY_ERROR=130, MAIN_APP_COILS_QTY=9,
                 MAIN_APP_DISCRET_INPUTS_QTY=5, MAIN_APP_INPUT_REG_QTY=4, MAIN_APP_HOLDING_REG_QTY=3),
    "wide": dict(MODBUS_MASTER_MAX_MSG_QUEUE_ITEMS=6, MODBUS_MASTER_RESP_TIME_OUT_MS=40,
                 MODBUS_MASTER_REQ_REPEAT_ON_ANY_ERROR=1, MAIN_APP_COILS_QTY=65535,
                 MAIN_APP_DISCRET_INPUTS_QTY=40961, MAIN_APP_INPUT_REG_QTY=33024, MAIN_APP_HOLDING_REG_QTY=65535),
}

TABLES = dict(MAIN_APP_COILS_QTY=4, MAIN_APP_DISCRET_INPUTS_QTY=3, MAIN_APP_INPUT_REG_QTY=1, MAIN_APP_HOLDING_REG_QTY=2)


def overrides(variant):
    m = re.match(r"mc_(\d+)_(\d+)_(\d+)$", variant)      # the constants of a model
    if m:
        return dict(MODBUS_MASTER_MAX_MSG_QUEUE_ITEMS=int(m.group(1)), MODBUS_MASTER_RESP_TIME_OUT_MS=int(m.group(2)),
                    MODBUS_MASTER_REQ_REPEAT_ON_ANY_ERROR=int(m.group(3)), **TABLES)
    return EXTRA[variant] if variant in EXTRA else VARIANTS[variant]


class BuildError(Exception):
    pass


def build(variant, outdir, asan=False):
    """-> path of the shared object for this configuration."""
    name = variant + ("_asan" if asan else "")
    work = os.path.join(outdir, name)
    src = os.path.join(work, "src")
    if os.path.exists(work):
        shutil.rmtree(work)
    shutil.copytree(os.path.join(REPO, "src"), src)
    over = overrides(variant)
    if over:
        for root, _, files in os.walk(src):
            for f in files:
                if f != "modbus_config.h":
                    continue
                p = os.path.join(root, f)
                t = open(p, encoding="utf-8", errors="surrogateescape").read()
                for k, v in over.items():
                    t = re.sub(r"(?m)^(\s*#\s*define\s+%s)\b[^\n]*$" % k, r"\g<1> %d" % v, t)
                open(p, "w", encoding="utf-8", errors="surrogateescape").write(t)
    cs, incs = [], set()
    for root, _, files in os.walk(src):
        for f in sorted(files):
            if f.endswith(".c"):
                cs.append(os.path.join(root, f))
            if f.endswith(".h"):
                incs.add(root)
    so = os.path.join(work, "libmb.so")
    san = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"] if asan else []
    cmd = (["gcc", "-std=gnu11", "-O1", "-g", "-w", "-fPIC", "-shared", "-Wl,-Bsymbolic", "-o", so] + san +
           sum([["-I", i] for i in sorted(incs)], []) + [os.path.join(HARNESS, "guard_lo.c")] + sorted(cs) + [os.path.join(HARNESS, f) for f in ("guard_hi.c", "shim.c")])
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError(r.stderr[-4000:])
    return so

"""C35: results do not depend on the environment of the process."""
import json
import os
import subprocess
import sys
import tempfile

from estmon import chart, envrun, fresh, snap, trading
from estmon.chart import count_frames
from estmon.core import Inconclusive, LibraryError

PROP = "C35"
TEMPLATES = [("mixed", 48, 800), ("charts", 16, 300), ("reports", 20, 300)]
RULE = ("seeded systems run in a process of the usual environment, then in processes of other timezones, clocks (shifted by "
        "years, jumping), locales and encodings, hash seeds, optimisation levels, garbage collection, logging and thread "
        "switching settings; callbacks, frames, indicators, trades, results and report files must be the same; non-trivial: "
        "trades and frames in at least 2 environments; distinct: hash of what was compared")
REQUIRED = ("judged:same", "judged:files", "env:timezone", "env:clock", "env:encoding", "env:hash", "env:optimised", "env:gc",
            "env:logs")
FRESH = True
SHRINK = ("systems", "envs")
ASSUMPTIONS = ["references of strategies can be written in the file system encoding of the process"]
ZONES = ["America/New_York", "Pacific/Kiritimati", "Asia/Kathmandu", "Australia/Lord_Howe", "Pacific/Pago_Pago", "Europe/London"]
KINDS = [{"kind": "candle"}, {"kind": "ha"}, {"kind": "pivot"}, {"kind": "olhc"}, {"kind": "sma", "n": 3}, {"kind": "rsi", "n": 2}]


def system(template, rng):
    spec = trading.trading_spec(rng, rng.choice([10, 25, 40]), always=0.4, density={"charts": 0.1}.get(template, 0.6), sized=0, idle=0.5, noref=0)
    for e, epic in enumerate(spec["epics"]):
        epic["frame_sets"] = []
        mine = [f for f in spec["feed"] if f[0] == e]
        for f in chart.pick_frames(rng, rng.choice([1, 2, 3]), tick_sets=0.2):
            f["indicators"] = [dict(k, ref=f"i{j}", moo=rng.random() < 0.4) for j, k in enumerate(rng.sample(KINDS, 3))
                               if k["kind"] != "rsi" or 2 * f["q"] <= (f["max"] or 100)]
            if count_frames(f, epic["tz"], mine, 80) == len(mine):
                epic["frame_sets"].append(f)
    odd = ["", "", "é", "日本", " €", ",;", '"x"', "\u2028"] if template == "reports" or rng.random() < 0.3 else [""]
    for e in spec["epics"]:
        if e.get("ref") or rng.random() < 0.5:
            e["ref"] = (e.get("ref") or "epic%d" % spec["epics"].index(e)) + rng.choice(odd)
    for k, acts in spec["actions"].items():
        for j, a in enumerate(acts):
            if a[2] == "open":
                a[7] = dict(a[7], ref=f"{k}.{j}" + rng.choice(odd))
    return spec


def environment(rng):
    env, flags, mode = {}, [], rng.choice(["", "", "gc_off", "gc_often", "logs", "no_logs", "switch"])
    if rng.random() < 0.6:
        env["TZ"] = rng.choice(ZONES)
    if rng.random() < 0.6:
        env["PYTHONHASHSEED"] = str(rng.randrange(1, 4_000_000_000))
    r = rng.random()
    if r < 0.35:
        env.update(LC_ALL="C", PYTHONCOERCECLOCALE="0", PYTHONUTF8="0")
    elif r < 0.5:
        env.update(LC_ALL="POSIX", PYTHONUTF8="1")
    elif r < 0.6:
        env.update(LC_ALL="C.UTF-8", PYTHONUTF8="0")
    if rng.random() < 0.5:
        # seconds: shift of the clock, and by how much it jumps at each reading
        env["SHIM_SHIFT"] = str(rng.choice([-1, 1]) * rng.randrange(0, 24 * 365 * 86400))
        env["SHIM_JUMP"] = str(rng.choice([0, 0, 1, 3600, 86400 * 40]))
    flags = rng.choice([[], [], ["-O"], ["-OO"], ["-X", "dev"], ["-bb"]])
    return {"env": env, "flags": flags, "mode": mode}


def gen(template, rng):
    return {"systems": [system(template, rng) for _ in range(4)], "envs": [environment(rng) for _ in range(3)]}


SHIM = r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <sys/time.h>
#include <time.h>
static long move(void) {
    static long n = 0;
    const char *s = getenv("SHIM_SHIFT"), *j = getenv("SHIM_JUMP");
    long shift = s ? atol(s) : 0, jump = j ? atol(j) : 0;
    return shift + (jump ? (__sync_add_and_fetch(&n, 1) * 7919) % (2 * jump + 1) - jump : 0);
}
int clock_gettime(clockid_t c, struct timespec *t) {
    static int (*real)(clockid_t, struct timespec *) = 0;
    if (!real) real = dlsym(RTLD_NEXT, "clock_gettime");
    int r = real(c, t);
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) t->tv_sec += move();
    return r;
}
int gettimeofday(struct timeval *t, void *z) {
    static int (*real)(struct timeval *, void *) = 0;
    if (!real) real = dlsym(RTLD_NEXT, "gettimeofday");
    int r = real(t, z);
    t->tv_sec += move();
    return r;
}
time_t time(time_t *t) {
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    if (t) *t = s.tv_sec;
    return s.tv_sec;
}
"""
_shim = {}


def shim():
    """A shared object which moves the clock of the processes preloading it."""
    if os.getpid() not in _shim:
        folder = tempfile.mkdtemp(prefix="shim", dir=os.environ.get("ESTMON_TMP"))
        source, target = os.path.join(folder, "shim.c"), os.path.join(folder, "shim.so")
        with open(source, "w") as f:
            f.write(SHIM)
        p = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", target, source, "-ldl"], capture_output=True, text=True)
        if p.returncode:
            raise Inconclusive("the clock shim is not built: " + p.stderr[:500])
        _shim[os.getpid()] = target
    return _shim[os.getpid()]


def execute(setting, systems):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("LC_", "LANG", "SHIM_"))}
    env.update(setting["env"])
    if "SHIM_SHIFT" in setting["env"]:
        env["LD_PRELOAD"] = shim()
    p = subprocess.run([sys.executable] + setting["flags"] + ["-m", "estmon.envrun"], env=env, timeout=200, capture_output=True,
                       input=json.dumps({"systems": systems, "mode": setting["mode"]}).encode("ascii"))
    try:
        return json.loads(p.stdout)
    except ValueError:
        raise Inconclusive("process ended with %s: %s" % (p.returncode, p.stderr[-1500:].decode("utf-8", "replace")))


def run(spec, mon):
    import time

    wanted = [fresh.call(envrun.observe, s) for s in spec["systems"]]
    used = 0
    for setting in spec["envs"]:
        start = time.time()
        told = execute(setting, spec["systems"])
        facts = told["facts"]
        mon.ev("env:process")
        if facts["offset"] != 0:
            mon.ev("env:timezone")
        if not start - 86400 <= facts["now"] <= time.time() + 86400:
            mon.ev("env:clock")
        if facts["encoding"].lower().replace("-", "") != "utf8":
            mon.ev("env:encoding")
        if setting["env"].get("PYTHONHASHSEED"):
            mon.ev("env:hash")
        if facts["optimised"]:
            mon.ev("env:optimised")
        if setting["mode"]:
            mon.ev("env:" + ("gc" if "gc" in setting["mode"] else "logs" if "logs" in setting["mode"] else setting["mode"]))
        for n, ((kind, got), want) in enumerate(zip(told["out"], wanted)):
            if kind == "library":
                raise LibraryError(got[0], "in %s:\n%s" % (setting, got[1]))
            if kind != "ok":
                raise Inconclusive(got[1])
            d = snap.diff(want["end"], got["end"])
            mon.ok(d is None, "same", "system %s in %s: %s", n, setting, d)
            d = snap.diff(want["asked"], got["asked"])
            mon.ok(d is None, "same", "readings of system %s in %s: %s", n, setting, d)
            first = next((i for i, (a, b) in enumerate(zip(want["digests"], got["digests"])) if a != b), None)
            mon.ok(first is None, "same", "system %s in %s: first difference after tick %s", n, setting, first)
            mon.ok(want["calls"] == got["calls"], "same", "system %s in %s: %s callbacks against %s", n, setting, got["calls"],
                   want["calls"])
            d = snap.diff(want["files"], got["files"])
            mon.ok(d is None, "files", "report of system %s in %s: %s", n, setting, d)
            mon.sig(want["digests"][-1], setting["flags"], sorted(setting["env"]))
        used += 1
    trades = any(k.startswith("trade") for w in wanted for k in w["end"])
    frames = any(k.startswith("frames") for w in wanted for k in w["end"])
    mon.nontrivial = used >= 2 and trades and frames

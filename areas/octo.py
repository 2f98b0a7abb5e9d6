"""S04 S05 S06 O01..O06 T01: behaviours of spec/Octo.tla replayed on the octorpki process."""
import json, os, random, subprocess

INV = ["ReadyIsStable", "Bounded", "InfoHonest", "S04", "S05", "Fresh2", "MonitorOk"]
FILES = {"cmd/vh_octo/%s.go" % n: "harness/octo/%s.go" % n for n in ("main", "world", "rsync", "scen", "check", "der", "metrics")}
ALL = ["one", "oners", "chain3", "chain5", "fork", "two", "twors", "thief"]
TALS = ["h", "r", "hh", "hr", "rh", "hhr", "hrh"]

# what the behaviours of a property concentrate on
FOCUS = {
    "S04": dict(topos=["chain3", "chain5", "fork", "two", "twors", "thief"], tals=["h"]),
    "S05": dict(topos=["one", "oners", "twors", "two"], tals=TALS),
    "S06": dict(topos=ALL[:-1], tals=["h", "hr"], kills=range(1, 26)),
    "S01": dict(topos=["one", "chain3", "fork", "twors"], tals=["h"]),
    "S02": dict(topos=["one", "chain3", "fork", "twors"], tals=["h"]),
    "O01": dict(modes=["server"], features="poll"),
    "O02": dict(limits=[1, 2, 3, 4, 32], features="poll,slow", rounds=8),
    "O03": dict(topos=["chain3", "fork", "two", "twors"], tals=["h", "r"]),
    "O04": dict(modes=["server", "oneoff"], features="poll"),
    "O05": dict(modes=["server"], features="poll"),
    "O06": dict(modes=["server"], tals=["h", "r", "hr"]),
    "O07": dict(modes=["server"], tals=["h", "r", "hr"], features="slow"),
    "T01": dict(modes=["server"], features="ct"),
}


def tset(xs, quote=True):
    return "{" + ",".join('"%s"' % x if quote else str(x) for x in xs) + "}"


def consts(f, **over):
    c = {"Topos": tset(f.get("topos", ALL)), "TalSets": tset(f.get("tals", TALS[:-1])), "Modes": tset(f.get("modes", ["oneoff", "server"])),
         "Limits": tset(f.get("limits", [1, 2, 32]), False), "Variants": tset(["", "norrdp", "nofailover", "nowait"]), "KillAts": tset(f.get("kills", [0]), False),
         "MaxVer": 3, "MaxRounds": f.get("rounds", 6), "Runs": 2, "Emitting": "TRUE"}
    c.update(over)
    return c


def replay(ctx, binary, daemon, race, lines, features, budget, seed):
    d = ctx.path("octo%d" % ctx._n)
    ctx._n += 1
    os.makedirs(d)
    p = subprocess.run([binary, "-octo", daemon, "-octorace", race, "-dir", d, "-keys", os.path.join(os.path.dirname(__file__), "..", "harness", "keys.pem"), "-seed", str(seed), "-workers", "14",
                        "-features", features, "-budget", "%ds" % budget], input="\n".join(lines) + "\n", capture_output=True, text=True, timeout=budget + 250, errors="replace")
    if p.returncode != 0:
        raise RuntimeError("harness failed: " + p.stderr[-2000:])
    for l in p.stdout.splitlines():
        r = json.loads(l)
        if "stats" in r:
            for k, v in r["stats"].items():
                ctx.extra.setdefault("daemon", {})
                ctx.extra["daemon"][k] = ctx.extra["daemon"].get(k, 0) + v
            ctx.traces += r["stats"].get("scenarios", 0)
            ctx.log("replayed on octorpki: %s" % r["stats"])
        else:
            b = r["case"]["behaviour"]
            ctx.violate(r["prop"], "%s [%s %s %s]" % (r["what"], b["Topo"], b["Cfg"], b["Uris"]), "octo " + r["kind"], r)


def run(ctx):
    binary = ctx.gobuild("vh_octo", FILES)
    daemon = ctx.gobuild("octorpki")
    race = ctx.racebuild("octorpki")
    f = FOCUS.get(ctx.prop, {})
    deep = ctx.thorough
    # all behaviours of small configurations satisfy the properties
    small = consts(dict(topos=["one"], tals=["hr"], limits=[1, 32]), Emitting="FALSE", MaxVer=2, MaxRounds=4 if not deep else 5, Runs=1 if not deep else 2, Variants=tset(["", "nofailover"]))
    ctx.tlc("Octo", small, invariants=INV, timeout=500)
    ctx.exhaustive.append("model: one repository, up to %d rounds, all outcomes" % (4 if not deep else 5))
    if deep:
        chain = consts(dict(topos=["chain3"], tals=["h"], limits=[2]), Emitting="FALSE", MaxVer=2, MaxRounds=4, Runs=1, Variants=tset([""]), Modes=tset(["oneoff"]))
        ctx.tlc("Octo", chain, invariants=INV, timeout=800)
    rounds = 1 if not deep else 4
    budget = 36 if not deep else 130
    for i in range(rounds):
        seed = ctx.seed * 1000 + i
        _, em, _, _ = ctx.tlc("Octo", consts(f), invariants=INV + ["Emit"], marker="@V@", seed=seed, workers=4,
                              extra=["-simulate", "num=%d" % (600 if not deep else 2500), "-depth", "500"], timeout=300)
        em = sorted(set(em))
        random.Random(seed).shuffle(em)
        if ctx.prop == "S06":
            em.sort(key=lambda l: '"out":"kill"' not in l)
        replay(ctx, binary, daemon, race, em, f.get("features", "") + (",poll,ct" if deep else ""), budget, seed)
        if em:
            ctx.samples.append(em[0])
    ctx.assumptions += ["attempts inside one phase of a round are independent of one another", "a (session, serial) pair is never reused for other content",
                        "up to 5 repositories, 2 trust anchors, %d rounds, 2 runs on one cache" % f.get("rounds", 6)]

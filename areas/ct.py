"""T02: chains submitted by the ctrpki program over worlds of spec/Pki.tla and behaviours of spec/Ct.tla."""
import json, os, random, subprocess
from . import pki


def run(ctx):
    h = ctx.gobuild("vh_disk", pki.DISK)
    c = ctx.gobuild("ctrpki")
    race = ctx.racebuild("ctrpki")
    _, beh, _, _ = ctx.tlc("Ct", {"Design": '"wait"', "MaxN": 4, "MaxT": 3 if ctx.thorough else 2}, invariants=["AllSent", "NoMore", "Bounded", "Emit"],
                           properties=["Ends"], marker="@C@", timeout=600)
    # the specification is not vacuous: telling the threads to stop loses chains
    _, _, ok, _ = ctx.tlc("Ct", {"Design": '"quit"', "MaxN": 2, "MaxT": 1}, invariants=["AllSent"], check=False)
    if ok:
        raise RuntimeError("Ct.tla: the weakened design passes")
    beh = sorted(set(beh))
    random.Random(ctx.seed).shuffle(beh)
    _, single, _, _ = ctx.tlc("Pki", {"Mode": '"single"', "Focus": '""', "Count": 0}, invariants=pki.INV, marker="@W@", timeout=700)
    _, pair, _, _ = ctx.tlc("Pki", {"Mode": '"pair"', "Focus": '""', "Count": 1500}, invariants=pki.INV, marker="@W@", seed=ctx.seed + 1, timeout=700)
    rnd = random.Random(ctx.seed)
    worlds = sorted(set(single))
    rnd.shuffle(worlds)
    worlds = worlds[:4000] + sorted(set(pair))
    rnd.shuffle(worlds)
    # what is accepted under a repeated identifier is a finding of V06
    worlds = [w for w in worlds if '"skidup"' not in w]
    d = ctx.path("ct")
    os.makedirs(d)
    budget = 300 if ctx.thorough else 25
    p = subprocess.run([h, "-ct", "-ctrpki", c, "-ctrpkirace", race, "-dir", d, "-keys", os.path.join(os.path.dirname(__file__), "..", "harness", "keys.pem"),
                        "-seed", str(ctx.seed), "-budget", "%ds" % budget], input="\n".join(beh + worlds) + "\n", capture_output=True, text=True, timeout=budget + 200, errors="replace")
    if p.returncode != 0:
        raise RuntimeError("harness failed: " + p.stderr[-2000:])
    for line in p.stdout.splitlines():
        r = json.loads(line)
        if "stats" in r:
            ctx.traces += r["stats"].get("ctrpki", 0)
            ctx.extra["ctrpki"] = r["stats"]
            ctx.log("runs of ctrpki: %s" % r["stats"])
        else:
            f = " ".join(sorted("%s:%s" % tuple(x) for x in r["Faults"] or []))
            ctx.violate(r["Prop"], "%s [faults %s, threads %s]" % (r["What"], f, r["Case"]["threads"]), "ct %s %s %s" % (r["Kind"], f, r["What"]), r["Case"])
    ctx.samples.append(beh[0])
    ctx.assumptions += ["the log answers every request in the end", "one chain per SubjectKeyIdentifier and anchor"]

"""O03, V07, V04: sets of ROAs of spec/Publish.tla published by the octorpki and localrpki programs."""
import json, os, random, subprocess
from . import pki

INV = ["NoTwice", "Exact", "Labelled", "WellFormed", "Complete", "Emit"]


def run(ctx):
    h = ctx.gobuild("vh_disk", pki.DISK)
    l, o = ctx.gobuild("localrpki"), ctx.gobuild("octorpki")
    lines = []
    _, em, _, _ = ctx.tlc("Publish", {"Mode": '"pairs"', "MaxRoas": 2, "MaxEntries": 1, "Emitting": "TRUE"}, invariants=INV, marker="@P@", timeout=300)
    em = sorted(set(em))
    random.Random(ctx.seed).shuffle(em)
    _, rnd, _, _ = ctx.tlc("Publish", {"Mode": '"random"', "MaxRoas": 4, "MaxEntries": 4, "Emitting": "TRUE"}, invariants=INV, marker="@P@", timeout=300,
                           seed=ctx.seed + 5, workers=4, extra=["-simulate", "num=%d" % (20000 if ctx.thorough else 1500), "-depth", "30"])
    rnd = sorted(set(rnd))
    random.Random(ctx.seed).shuffle(rnd)
    em = em if ctx.thorough else em[:3000]
    while em or rnd:
        lines += em[:12] + rnd[:12]
        del em[:12], rnd[:12]
    d = ctx.path("publish")
    os.makedirs(d)
    budget = 150 if ctx.thorough else 12
    p = subprocess.run([h, "-publish", "-localrpki", l, "-octorpki", o, "-dir", d, "-keys", os.path.join(os.path.dirname(__file__), "..", "harness", "keys.pem"),
                        "-seed", str(ctx.seed), "-budget", "%ds" % budget], input="\n".join(lines) + "\n", capture_output=True, text=True, timeout=budget + 200, errors="replace")
    if p.returncode != 0:
        raise RuntimeError("harness failed: " + p.stderr[-2000:])
    for line in p.stdout.splitlines():
        r = json.loads(line)
        if "stats" in r:
            ctx.traces += r["stats"].get("worlds", 0)
            ctx.extra["publish"] = r["stats"]
            ctx.log("replayed on the programs: %s of %d" % (r["stats"], len(lines)))
        else:
            ctx.violate(r["Prop"], r["What"], "publish %s %s" % (r["Kind"], r["What"]), r["Case"])
    ctx.samples.append(lines[0])
    ctx.assumptions += ["up to 4 ROAs of up to 4 entries per publication point, 12 publication points per run, 2 trust anchors"]

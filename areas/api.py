"""V10: spec/Api.tla on the API's source of files over a real connection; worlds of Pki.tla and Dir.tla validated through it."""
import json, random, subprocess
from areas import pki

INV = ["TypeOK", "InOrder", "Honest", "NothingMadeUp", "Emit"]


def run(ctx):
    b = ctx.gobuild("vh_api", {"cmd/vh_api/main.go": "harness/api/main.go"})
    binary = ctx.gobuild("vh_pki", {"cmd/vh_pki/main.go": "harness/pki/main.go"})
    ctx.tlc("Api", {"MaxLen": 2, "Emitting": "FALSE"}, invariants=INV[:-1], properties=["Ended"], timeout=300)
    _, em, _, _ = ctx.tlc("Api", {"MaxLen": 2, "Emitting": "TRUE"}, invariants=INV, marker="@A@", timeout=300)
    ctx.exhaustive.append("listings of up to 2 files and single files: every name, form of the content and end")
    _, more, _, _ = ctx.tlc("Api", {"MaxLen": 9, "Emitting": "TRUE"}, invariants=INV, marker="@A@", timeout=300, seed=ctx.seed, workers=4,
                            extra=["-simulate", "num=%d" % (40000 if ctx.thorough else 2000), "-depth", "30"])
    lines = sorted(set(em))
    # giving up takes time
    hang = [l for l in lines if '"hang"' in l]
    rest = [l for l in lines if '"hang"' not in l]
    r = random.Random(ctx.seed)
    r.shuffle(hang)
    lines = rest + hang[:20000 if ctx.thorough else 800] + sorted(set(more))
    p = subprocess.run([b], input="\n".join(lines) + "\n", capture_output=True, text=True, timeout=600, errors="replace")
    if p.returncode != 0:
        msg = [l for l in p.stderr.splitlines() if l.startswith(("panic", "fatal error"))]
        if not msg:
            raise RuntimeError("harness failed: " + p.stderr[-2000:])
        ctx.violate(["V10"], "the client of the API died: " + msg[0], "api crash " + msg[0][:60], {})
    for l in p.stdout.splitlines():
        d = json.loads(l)
        if "replayed" in d:
            ctx.traces += d["replayed"]
            ctx.log("replayed %d behaviours on the API" % d["replayed"])
        else:
            ctx.violate(["V10"], d["What"], "api " + d["What"], d["Case"])
    ctx.samples.append(json.loads(lines[0]))

    def go(mod, mode, count, tag, n, seed=None):
        kw = dict(spec="DSpec", invariants=["DSound", "DComplete", "DEmit"]) if mod == "Dir" else dict(invariants=pki.INV)
        _, em, _, _ = ctx.tlc(mod, {"Mode": '"%s"' % mode, "Focus": '""', "Count": count}, marker="@W@", seed=seed, timeout=700, **kw)
        em = [l for l in sorted(set(em)) if '"skidup"' not in l]
        random.Random(ctx.seed).shuffle(em)
        pki.replay(ctx, binary, em[:n], tag, ["api"])
    big = 10 ** 9
    go("Pki", "single", 0, "api-single", big)
    go("Dir", "single", 0, "api-dir-single", big)
    go("Pki", "pair", 8000 if ctx.thorough else 1500, "api-pair", big, ctx.seed + 1)
    go("Dir", "pair", 8000 if ctx.thorough else 1500, "api-dir-pair", big, ctx.seed + 2)
    ctx.exhaustive.append("all single faults of Pki.tla and Dir.tla x 3 orders x 4 strictness settings over the API")
    if ctx.thorough:
        go("Pki", "triple", 12000, "api-triple", big, ctx.seed + 3)
        go("Dir", "triple", 12000, "api-dir-triple", big, ctx.seed + 4)
    ctx.assumptions += ["RSA/SHA-256 of the Go library", "the vendored gRPC library", "messages below its limit of 4 MB"]

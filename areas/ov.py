"""L01: behaviours of spec/Ov.tla replayed on ov.OriginValidator."""
import json

INV = ["OrderFree", "DupFree", "AsZero", "Monotone", "Emit"]


def run(ctx):
    binary = ctx.gobuild("vh_ov", {"cmd/vh_ov/main.go": "harness/ov/main.go"})

    def go(w, n, sample, seed=None, timeout=600):
        _, em, _, _ = ctx.tlc("Ov", {"W": w, "ASNs": "{0, 1, 2}", "N": n, "Sample": sample}, invariants=INV, marker="@V@",
                              seed=seed, timeout=timeout)
        em = sorted(em)
        wf = ctx.path("ov-%d-%d-%d" % (w, n, sample))
        open(wf, "w").write("\n".join(em) + "\n")
        r = ctx.run([binary, wf], timeout=600)
        if r.returncode != 0:
            ctx.violate(["L01"], "origin validation crashed: " + r.stderr[-400:], "ov crash")
            return
        for l in r.stdout.splitlines():
            d = json.loads(l)
            if "replayed" in d:
                ctx.traces += d["replayed"]
                continue
            ctx.violate(["L01"], "%s: %s" % (d["what"], d["case"]), "ov " + d["what"], d["case"])
        ctx.samples.append(json.loads(em[len(em) // 2])["v"])
    go(2, 2, 0)
    ctx.exhaustive.append("all multisets of at most 2 VRPs x all routes, 2-bit prefixes, 3 of 22 embeddings each")
    go(3, 3, 12000 if ctx.thorough else 1500, seed=ctx.seed)
    go(2, 5, 12000 if ctx.thorough else 1500, seed=ctx.seed)
    if ctx.thorough:
        go(3, 2, 0)
        ctx.exhaustive.append("all multisets of at most 2 VRPs x all routes, 3-bit prefixes")
    ctx.assumptions += ["prefixes without host bits", "embeddings of the abstract bits at 8 IPv4 and 11 IPv6 offsets"]

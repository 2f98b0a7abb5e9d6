"""L02 (and V08): behaviours of spec/Ber.tla replayed on librpki.BER2DER."""
import json

INV = ["Faithful", "DerFixed", "NeverLonger", "Emit"]


def run(ctx):
    binary = ctx.gobuild("vh_ber", {"cmd/vh_ber/main.go": "harness/ber/main.go"})

    def go(mode, alpha, maxlen, sample, tag, seed=None, extra=(), timeout=600):
        _, em, _, _ = ctx.tlc("Ber", {"Mode": '"%s"' % mode, "Alphabet": alpha, "MaxLen": maxlen, "Sample": sample, "MaxDepth": 100},
                              invariants=INV, marker="@B@", seed=seed, timeout=timeout)
        wf = ctx.path("ber-" + tag)
        open(wf, "w").write("\n".join(em) + "\n")
        r = ctx.run([binary, wf, str(ctx.seed)] + list(extra), timeout=700)
        if r.returncode != 0:
            ctx.violate(["L02", "V08"], "BER2DER ended the process: " + "; ".join(r.stderr.splitlines()[:2])[:400], "ber crash " + tag)
            return
        for l in r.stdout.splitlines():
            d = json.loads(l)
            if "replayed" in d:
                ctx.traces += d["replayed"]
                continue
            props = ["L02", "V08"] if d["what"] in ("crash", "hang") else ["L02"]
            ctx.violate(props, "BER2DER: %s %s %s" % (d["what"], d.get("in"), d.get("detail")), "ber " + d["what"], d)
        ctx.samples.append(em[len(em) // 2][:300])
    q = ctx.prop != "L02" and not ctx.thorough
    go("bytes", "{0, 1, 2, 4, 48, 128, 129}", 5 if q else 6, 0, "a")
    ctx.exhaustive.append("all byte strings over {00,01,02,04,30,80,81} up to length %d" % (5 if q else 6))
    if not q:
        go("bytes", "{0, 2, 31, 36, 63, 128, 130, 255}", 5, 0, "b")
        ctx.exhaustive.append("all byte strings over {00,02,1f,24,3f,80,82,ff} up to length 5")
    go("trees", "{0}", 0, 200 if q else 600, "t", seed=ctx.seed, extra=["deep"])
    if ctx.thorough:
        go("bytes", "{0, 2, 48, 128, 129}", 8, 0, "c", timeout=800)
        go("bytes", "{0, 31, 36, 63, 128, 255}", 7, 0, "d", timeout=800)
        for i in range(3):
            go("trees", "{0}", 0, 3000, "t%d" % i, seed=ctx.seed + 7 * i + 1)
        ctx.exhaustive.append("all byte strings over {00,02,30,80,81} up to length 8 and {00,1f,24,3f,80,ff} up to 7")
    ctx.assumptions.append("long-form lengths with leading zeros may be rejected or normalised; nesting beyond 100 may be rejected")

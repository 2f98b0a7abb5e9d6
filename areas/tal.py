"""L03, L04: behaviours of spec/Tal.tla replayed on librpki's TAL reader and writer."""
import json


def run(ctx):
    binary = ctx.gobuild("vh_tal", {"cmd/vh_tal/main.go": "harness/tal/main.go"})
    _, em, _, _ = ctx.tlc("Tal", {"MaxUris": 2, "Deep": 3} if not ctx.thorough else {"MaxUris": 3, "Deep": 9},
                          invariants=["Exact", "Emit"], marker="@T@", timeout=800)
    wf = ctx.path("tal.jsonl")
    open(wf, "w").write("\n".join(em) + "\n")
    r = ctx.run([binary, wf], timeout=600)
    if r.returncode != 0:
        ctx.violate(["L03", "V08"], "locator handling ended the process: " + r.stderr[:300], "tal crash")
        return
    for l in r.stdout.splitlines():
        d = json.loads(l)
        if "replayed" in d:
            ctx.traces += d["replayed"]
            continue
        ctx.violate(d["props"].split(), "%s %s" % (d["what"], d["case"]), "tal " + d["what"], d)
    ctx.samples.append(json.loads(em[len(em) // 2]))
    ctx.exhaustive.append("locators with up to %s deviations from the plain form" % ("3" if not ctx.thorough else "any number of"))
    ctx.assumptions.append("comments between URIs, several separating or trailing blank lines may be rejected or accepted")

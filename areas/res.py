"""V04 (and V06): chains of spec/Resources.tla replayed on the validator."""
import json, os

KEYS = os.path.join(os.path.dirname(__file__), "..", "harness", "keys.pem")


def run(ctx):
    binary = ctx.gobuild("vh_res", {"cmd/vh_res/main.go": "harness/res/main.go"})
    emitted = {}
    for n, kinds in ((4, "v4,v6"), (3, "as"), (3, "v4u"), (3, "v6u")):
        if ctx.thorough:
            kinds = {"v4,v6": "v4,v6,as"}.get(kinds, kinds)
        if n not in emitted:
            _, emitted[n], _, _ = ctx.tlc("Resources", {"N": n},
                                        invariants=["NeverExceeds", "Monotone", "VrpHeldByAll", "InheritAll", "Emit"], marker="@R@", timeout=800)
        em = emitted[n]
        wf = ctx.path("chains%d.txt" % n)
        open(wf, "w").write("\n".join(em) + "\n")
        for rep in range(1 if not ctx.thorough else 12 if n == 3 else 4):
            r = ctx.run([binary, wf, KEYS, str(ctx.seed + rep), str(n), kinds], timeout=800)
            if r.returncode != 0:
                ctx.violate(["V08", "V04"], "the validator process died: " + r.stderr[:300], "res crash")
                continue
            for l in r.stdout.splitlines():
                d = json.loads(l)
                if "replayed" in d:
                    ctx.traces += d["replayed"]
                    ctx.log("replayed %(replayed)d chains, %(certs)d certificates" % d)
                elif d["what"].startswith("sound"):
                    ctx.violate(["V06", "V04"], "%s %s" % (d["what"], d["case"]), "res sound " + d["case"]["kind"], d)
                elif d["what"] == "crash":
                    ctx.violate(["V08", "V04"], str(d["case"]), "res crash", d)
                else:
                    ctx.violate(["V04"], "%s %s" % (d["what"], d["case"]), "res excess " + d["case"]["kind"], d)
        ctx.samples.append(em[len(em) // 2])
    ctx.exhaustive.append("all chains trust anchor/CA/CA/end entity over 4 points (IPv4, IPv6; quick: each chain in one of them) and 3 points (AS), with inherit and empty")

"""S01, S02: synchronisation attempts of spec/Rrdp.tla replayed on sync/lib."""
import json


def run(ctx):
    binary = ctx.gobuild("vh_rrdp", {"cmd/vh_rrdp/main.go": "harness/rrdp/main.go"})
    confs = [({"Uris": '{"a", "b"}', "MaxSteps": 3, "Sessions": 2, "MaxFail": 1}, 4 if ctx.thorough else 40)]
    if ctx.thorough:
        confs += [({"Uris": '{"a"}', "MaxSteps": 6, "Sessions": 2, "MaxFail": 1}, 20)]
    for c, every in confs:
        c = dict(c, Emitting="TRUE")
        _, em, _, _ = ctx.tlc("Rrdp", c, invariants=["Converged", "Sane"], properties=["Recorded"], marker="@V@", timeout=700)
        em = sorted(set(em))
        wf = ctx.path("rrdp.txt")
        open(wf, "w").write("\n".join(em) + "\n")
        for rep in range(1 if not ctx.thorough else 3):
            r = ctx.run([binary, wf, str(ctx.seed + rep), str(every)], timeout=800)
            if r.returncode != 0:
                ctx.violate(["V08", "S01", "S02"], "the RRDP client died: " + r.stderr[:300], "rrdp crash")
                continue
            for l in r.stdout.splitlines():
                d = json.loads(l)
                if "replayed" in d:
                    ctx.traces += d["replayed"]
                    ctx.log("replayed %(replayed)d attempts, %(http)d of them over HTTP" % d)
                    ctx.extra.setdefault("faults", {}).update(d["kinds"])
                else:
                    ctx.violate(d["prop"], "%s (%s over %s)" % (d["what"], d["case"]["how"], d["case"]["where"]),
                                "rrdp %s %s" % (d["what"].split(":")[0], d["kind"]), d)
        ctx.samples.append(em[len(em) // 2])
        ctx.exhaustive.append("all attempts (with at most one fault each) from all states reachable with %s" % c)
    ctx.assumptions += ["a publisher never reuses a (session, serial) pair for different content",
                        "a publisher rolled back to an older serial starts a new session before publishing again"]

"""V08, S01, S02: attempts of spec/Xml.tla, which find unusual and damaged RRDP documents, replayed on sync/lib."""
import json

INV = ["Unrecorded", "Converges", "Refused", "Emit"]


def run(ctx):
    binary = ctx.gobuild("vh_xml", {"cmd/vh_xml/main.go": "harness/xml/main.go"})

    def group(mode, count, seed):
        _, em, _, _ = ctx.tlc("Xml", {"Mode": '"%s"' % mode, "Count": count}, invariants=INV, marker="@M@", seed=seed, timeout=600)
        cases = {}
        for l in sorted(set(em)):
            d = json.loads(l)
            k = json.dumps([d["client"], sorted(d["change"], key=str)], sort_keys=True)
            b = cases.setdefault(k, {"client": d["client"], "start": d["start"], "change": d["change"], "outcomes": []})
            b["outcomes"].append({"ok": d["ok"], "rec": d["rec"], "store": d["store"]})
        return [json.dumps(b, sort_keys=True) for b in cases.values()]

    def replay(cases, seed):
        r = ctx.run([binary, str(seed)], input="\n".join(cases) + "\n", timeout=600)
        if r.returncode != 0:
            if "specification and documents differ" in r.stderr:
                raise RuntimeError(r.stderr[-1500:])
            ctx.violate(["V08"], "the RRDP client died: " + r.stderr[:300], "xml crash")
            return
        for l in r.stdout.splitlines():
            d = json.loads(l)
            if "replayed" in d:
                ctx.traces += d["replayed"]
                ctx.log("documents: %(replayed)d attempts %(kinds)s" % d)
                continue
            what = "; ".join("%s/%s %s %s" % (c["Doc"], c["El"], c["At"], c["Op"]) for c in d["Case"]["Change"])
            ctx.violate(d["Prop"], "%s [client %s: %s]" % (d["What"], d["Case"]["Client"], what), "xml " + d["What"][:60], d)

    one = group("one", 0, ctx.seed)
    replay(one, ctx.seed)
    replay(group("two", 4000 if ctx.thorough else 600, ctx.seed), ctx.seed)
    if ctx.thorough:
        for i in range(3):
            replay(one, ctx.seed + 100 + i)
            replay(group("two", 4000, ctx.seed + 7 * i + 1), ctx.seed + i)
    ctx.exhaustive.append("every change of every attribute, element, text and document, from five states of the client")
    ctx.samples.append(json.loads(one[len(one) // 2]))

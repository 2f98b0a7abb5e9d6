"""L04: behaviours of spec/Codec.tla replayed on librpki's encoders and decoders."""
import json, os

KEYS = os.path.join(os.path.dirname(__file__), "..", "harness", "keys.pem")


def run(ctx):
    binary = ctx.gobuild("vh_codec", {"cmd/vh_codec/main.go": "harness/codec/main.go"})
    for kind in ("ip", "as", "roa", "mft", "sia"):
        _, em, _, _ = ctx.tlc("Codec", {"Kind": '"%s"' % kind, "Count": 600 if ctx.thorough else 60},
                              invariants=["RoundTrip", "Canonical", "Emit"], marker="@C@", seed=ctx.seed, timeout=800)
        wf = ctx.path("codec-%s.jsonl" % kind)
        open(wf, "w").write("\n".join(em) + "\n")
        r = ctx.run([binary, wf, KEYS], timeout=600)
        if r.returncode != 0:
            ctx.violate(["L04", "V08"], "encoding ended the process: " + r.stderr[:300], "codec crash")
            continue
        for l in r.stdout.splitlines():
            d = json.loads(l)
            if "replayed" in d:
                ctx.traces += d["replayed"]
                continue
            ctx.violate(["L04", "V08"] if d["what"] == "crash" else ["L04"], "%s %s" % (d["what"], d["case"]), "codec " + d["what"][:60], d)
        ctx.samples.append(em[len(em) // 2][:200])
    ctx.exhaustive.append("every single block, ROA entry, manifest file and SIA entry of the pools")
    ctx.assumptions += ["IPv6 addresses that embed IPv4 ones (::ffff:0:0/96) excluded: net.IP cannot tell them apart",
                        "inherit is not mixed with explicit blocks of the same family"]

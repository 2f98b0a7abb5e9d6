"""L05, L06: behaviours of spec/Sign.tla (signed objects) and spec/Msg.tla (messages of CAs) replayed on validator/lib and ca."""
import json, os, shutil

KEYS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "keys.pem")


def run(ctx):
    binary = ctx.gobuild("vh_sign", {"cmd/vh_sign/main.go": "harness/sign/main.go"})
    openssl = shutil.which("openssl") is not None

    def replay(em, tag, every, seed):
        wf = ctx.path("sign-%s.jsonl" % tag)
        open(wf, "w").write("\n".join(em) + "\n")
        r = ctx.run([binary, wf, KEYS, str(seed), str(every), ctx.dir], timeout=700)
        if r.returncode != 0:
            ctx.violate(["L05", "L06"], "the process ended: " + r.stderr[:400], "sign crash")
            return
        for l in r.stdout.splitlines():
            d = json.loads(l)
            if "replayed" in d:
                ctx.traces += d["replayed"]
                continue
            p = ["L05", "L06"] if d["prop"] == "crash" else [d["prop"]]
            ctx.violate(p, "%s %s" % (d["what"], json.dumps(d["case"])[:200]), "sign " + d["what"][:60], d)
        ctx.samples.append(em[len(em) // 2][:300])

    seeds = [ctx.seed + i for i in range(8 if ctx.thorough else 2)]
    if ctx.prop == "L05":
        for kind in ("roa", "mft", "xml"):
            for single in (False, True):
                c = {"Kind": '"%s"' % kind, "Contents": 7 if single else 2, "Times": 5 if single else 2, "Single": "TRUE" if single else "FALSE"}
                _, em, _, _ = ctx.tlc("Sign", c, invariants=["Forged", "Whole", "Emit"], marker="@G@", timeout=300)
                for s in seeds:
                    replay(sorted(set(em)), kind, (7 if ctx.thorough else 40) if openssl else 10 ** 9, s)
        ctx.exhaustive.append("every recombination of the parts of two objects of a kind, over two contents, two times, two keys and certificates")
        ctx.exhaustive.append("every size of content, signing time and form of the signed attributes, by the right and a wrong key")
    else:
        for mx, sizes in [(2, 3)] + ([(4, 1), (3, 2)] if ctx.thorough else []):
            _, em, _, _ = ctx.tlc("Msg", {"Max": mx, "Sizes": sizes}, invariants=["InOrder", "Emit"], marker="@J@", timeout=300)
            for s in (seeds if mx == 2 else seeds[:1]):
                replay(sorted(set(em)), "msg", 0, s)
            ctx.exhaustive.append("messages of up to %d elements of %d sizes, in every spelling, with every kind of damage" % (mx, sizes))

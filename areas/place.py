"""L07: behaviours of spec/MapDir.tla replayed on the lookup of files, and worlds of Pki.tla spread over
several directories, read by localrpki and ctrpki through -map.dir."""
import json, os, random
from . import pki

INV = ["TypeOK", "OrderFree", "Apart", "Mapped"]


def run(ctx):
    binary = ctx.gobuild("vh_place", {"cmd/vh_place/main.go": "harness/place/main.go"})

    def go(n, deep, tag, timeout=600, extra=(), seed=None):
        _, em, _, _ = ctx.tlc("MapDir", {"MaxEntries": n, "MaxPrefix": deep, "Emitting": "TRUE"}, invariants=INV + ["Emit"], properties=["Local"] if not extra else [],
                              marker="@V@", timeout=timeout, extra=extra, seed=seed)
        em = sorted(set(em))
        wf, d = ctx.path("map-%s.jsonl" % tag), ctx.path("files-%s" % tag)
        open(wf, "w").write("\n".join(em) + "\n")
        os.makedirs(d)
        r = ctx.run([binary, wf, d, str(ctx.seed)], timeout=800)
        if r.returncode != 0:
            ctx.violate(["L07", "V08"], "looking up a file ended the process: " + r.stderr[:300], "place crash")
            return
        for l in r.stdout.splitlines():
            x = json.loads(l)
            if "replayed" in x:
                ctx.traces += x["replayed"]
                ctx.log("replayed %d mappings" % x["replayed"])
                continue
            ctx.violate(["L07"], "%s %s" % (x["what"], x["case"]), "place " + x["kind"], x)
        ctx.samples.append(json.loads(em[len(em) // 2])["list"])
    go(3, 2, "all")
    ctx.exhaustive.append("all mappings of up to 3 of 9 prefixes, in every order, x 24 URIs")
    if ctx.thorough:
        go(3, 3, "deep", timeout=850)
        ctx.exhaustive.append("all mappings of up to 3 of 27 prefixes, in every order")
    # whole trees, some directories of which are kept elsewhere, read by localrpki
    _, em, _, _ = ctx.tlc("Pki", {"Mode": '"single"', "Focus": '""', "Count": 0}, invariants=pki.INV, marker="@W@", timeout=600)
    em = sorted(l for l in em if "skidup" not in l)  # V06 has that
    random.Random(ctx.seed).shuffle(em)
    pki.disk(ctx, em[:30000], 150 if ctx.thorough else 12, ["-split"])
    ctx.assumptions += ["a prefix is mapped once", "directories have no comma in their name"]

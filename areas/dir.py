"""V09: worlds of spec/Dir.tla replayed on the validator without manifests."""
import json
from areas import pki

INV = ["TypeOK", "DSound", "DComplete", "DSoundC", "DCompleteC", "DMftNeutral", "DEmit"]


def run(ctx):
    binary = ctx.gobuild("vh_pki", {"cmd/vh_pki/main.go": "harness/pki/main.go"})
    ctx.assumptions += ["RSA/SHA-256 of the Go library", "hierarchies of 3 to 5 CAs", "one fault exhaustively, two and three sampled"]

    def go(mode, count, tag, seed=None):
        _, em, _, _ = ctx.tlc("Dir", {"Mode": '"%s"' % mode, "Focus": '""', "Count": count}, spec="DSpec",
                              invariants=INV, marker="@W@", seed=seed, timeout=700)
        em = [l for l in sorted(set(em)) if '"skidup"' not in l]
        pki.replay(ctx, binary, em, tag)
        return em
    single = go("single", 0, "single")
    ctx.exhaustive.append("all single faults x 3 orders of the directories x 4 strictness settings, topologies A and B")
    pair = go("pair", 8000 if ctx.thorough else 2000, "pairs", ctx.seed + 1)
    go("triple", 12000 if ctx.thorough else 800, "triples", ctx.seed + 2)
    pki.disk(ctx, pki.mixed(ctx, single, pair, ""), 100 if ctx.thorough else 10)
    if ctx.thorough:
        for i in range(3):
            go("triple", 12000, "triples%d" % i, ctx.seed + 10 + i)

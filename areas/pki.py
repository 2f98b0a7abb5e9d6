"""V01..V08: worlds of spec/Pki.tla replayed on the validator."""
import json, os, random, subprocess

INV = ["TypeOK", "Sound", "Complete", "SoundC", "CompleteC", "SoundM", "CompleteM", "Chained", "Emit"]


DISK = {"cmd/vh_disk/%s.go" % x: "harness/disk/%s.go" % x for x in ("main", "publish", "ct")}


def key_of(w, what):
    f = " ".join(sorted("%s:%s" % tuple(x) for x in w["faults"]))
    return "pki %s %s | %s" % (w["topo"], f, what)


def replay(ctx, binary, worlds, tag, more=()):
    wf, of = ctx.path("worlds-%s.jsonl" % tag), ctx.path("out-%s.jsonl" % tag)
    todo = list(worlds)
    crashes = 0
    while todo:
        with open(wf, "w") as f:
            f.write("\n".join(todo) + "\n")
        for i in range(64):
            if os.path.exists(of + ".progress.%d" % i):
                os.remove(of + ".progress.%d" % i)
        r = ctx.run([binary, wf, os.path.join(os.path.dirname(__file__), "..", "harness", "keys.pem"), of] + list(more), timeout=800)
        if r.returncode == 0:
            break
        # the process died: find the worlds it was working on
        msg = [l for l in r.stderr.splitlines() if l.startswith(("panic", "fatal error", "runtime:"))][:2] or [r.stderr[-300:]]
        cur = []
        for i in range(64):
            p = of + ".progress.%d" % i
            if os.path.exists(p):
                n = int(open(p).read().strip() or -1)
                if n >= 0:
                    cur.append(n)
        if not cur:
            raise RuntimeError("replay failed: " + r.stderr[-2000:])
        crashes += 1
        ctx.violate(["V08"], "the validator process died: %s" % "; ".join(msg), "pki crash " + msg[0][:80],
                    [json.loads(todo[n]) for n in cur])
        if crashes >= 3:
            return
        todo = [w for i, w in enumerate(todo) if i not in cur]
    n = 0
    parsed = {}
    for l in open(of):
        d = json.loads(l)
        if "replayed" in d:
            n = d["replayed"]
            continue
        i = d["World"]
        if i not in parsed:
            parsed[i] = json.loads(todo[i])
        w = parsed[i]
        what = d["What"]
        ctx.violate(d["Prop"], "%s [faults %s, order %s, strict %s/%s]" % (what, w["faults"], w["order"], w["sM"], w["sH"]),
                    key_of(w, what), w)
    ctx.traces += n
    if todo:
        w = json.loads(todo[len(todo) // 3])
        ctx.samples.append({"faults": w["faults"], "order": w["order"], "strict": [w["sM"], w["sH"]], "roas": w["roas"]})
    ctx.log("replayed %d behaviours on the validator" % n)


def run(ctx):
    binary = ctx.gobuild("vh_pki", {"cmd/vh_pki/main.go": "harness/pki/main.go"})
    focus = ctx.prop if ctx.prop in ("V01", "V02", "V03", "V04", "V05", "V07") else ""
    ctx.assumptions += ["RSA/SHA-256 of the Go library", "hierarchies of 3 to 5 CAs",
                        "fault sets of size 1 exhaustively, 2 sampled (quick) or exhaustive for this property (thorough), 3 sampled"]

    def go(mode, foc, count, tag, seed=None, timeout=700):
        _, em, _, _ = ctx.tlc("Pki", {"Mode": '"%s"' % mode, "Focus": '"%s"' % foc, "Count": count},
                              invariants=INV, marker="@W@", seed=seed, timeout=timeout)
        replay(ctx, binary, sorted(em), tag)
        return em
    single = go("single", "", 0, "single")
    ctx.exhaustive.append("all single faults x 3 orders x 4 strictness settings, topologies A and B")
    pair = go("pair", focus, 8000 if ctx.thorough else 2000, "pairs", seed=ctx.seed + 1)
    go("triple", focus, 12000 if ctx.thorough else 800, "triples", seed=ctx.seed + 2)
    disk(ctx, mixed(ctx, single, pair, focus), 100 if ctx.thorough else 10)
    if ctx.thorough:
        go("pair", focus, 0, "allpairs", timeout=850)
        ctx.exhaustive.append("all pairs of faults" + (" with one of " + focus if focus else "") + ", topology A, CRL last, strict")


def mixed(ctx, single, pair, focus):
    """single faults of the property in question, others, and pairs"""
    rnd = random.Random(ctx.seed)
    own, rest = [], []
    for l in sorted(set(single)):
        (own if not focus or focus in json.loads(l)["fp"] else rest).append(l)
    pair = sorted(set(pair))
    for x in (own, rest, pair):
        rnd.shuffle(x)
    out = []
    while own or rest or pair:
        for x, n in ((own, 2), (rest, 1), (pair, 1)):
            out += x[:n]
            del x[:n]
    return out


def disk(ctx, worlds, budget, more=()):
    """the same worlds as files, through the localrpki and octorpki programs"""
    h, l, o = ctx.gobuild("vh_disk", DISK), ctx.gobuild("localrpki"), ctx.gobuild("octorpki")
    d = ctx.path("disk")
    os.makedirs(d)
    p = subprocess.run([h, "-localrpki", l, "-octorpki", o, "-dir", d, "-keys", os.path.join(os.path.dirname(__file__), "..", "harness", "keys.pem"),
                        "-seed", str(ctx.seed), "-budget", "%ds" % budget] + list(more), input="\n".join(worlds) + "\n", capture_output=True, text=True, timeout=budget + 200, errors="replace")
    if p.returncode != 0:
        raise RuntimeError("harness failed: " + p.stderr[-2000:])
    for line in p.stdout.splitlines():
        r = json.loads(line)
        if "stats" in r:
            ctx.traces += r["stats"].get("worlds", 0)
            ctx.extra["programs"] = r["stats"]
            ctx.log("replayed on the programs: %s" % r["stats"])
        else:
            f = " ".join(sorted("%s:%s" % tuple(x) for x in r["Faults"] or []))
            ctx.violate(r["Prop"], "%s [%s, faults %s]" % (r["What"], r["Case"]["tool"], f), "pki %s %s | %s" % (r["Kind"], f, r["What"]), r["Case"])

"""V08: behaviours of spec/Corrupt.tla replayed on the validator, localrpki and octorpki."""
import json, os, random, subprocess

INV = ["Isolated", "Emit"]
KEYS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "keys.pem")


def report(ctx, out):
    for l in out.splitlines():
        r = json.loads(l)
        if "stats" in r:
            ctx.traces += sum(r["stats"].values())
            ctx.log("damage: %s" % r["stats"])
            continue
        b = r["Case"]
        d = "; ".join("%s/%s %s %s" % (b["obj"], b["part"], s["op"], s["path"]) for s in b["damage"]) if isinstance(b, dict) and b.get("damage") else "%d damaged CAs" % (len(b) if isinstance(b, list) else 0)
        ctx.violate(r["Prop"], "%s [%s]" % (r["What"], d), "corrupt %s" % r["What"][:60], b)


def run(ctx):
    binary = ctx.gobuild("vh_corrupt", {"cmd/vh_corrupt/%s.go" % x: "harness/corrupt/%s.go" % x for x in ("main", "edit")})
    progs = ["-localrpki", ctx.gobuild("localrpki"), "-octorpki", ctx.gobuild("octorpki")]

    def library(lines, tag):
        todo, crashes = list(lines), 0
        while todo:
            for f in os.listdir(ctx.dir):
                if f.startswith("progress."):
                    os.remove(ctx.path(f))
            p = subprocess.run([binary, "-keys", KEYS, "-seed", str(ctx.seed)], input="\n".join(todo) + "\n", cwd=ctx.dir,
                               capture_output=True, text=True, timeout=700, errors="replace")
            if p.returncode == 0:
                report(ctx, p.stdout)
                return
            if "specification and objects differ" in p.stderr:
                raise RuntimeError(p.stderr[-1500:])
            msg = [l for l in p.stderr.splitlines() if l.startswith(("panic", "fatal error", "runtime:"))][:2] or [p.stderr[-300:]]
            cur = set()
            for f in os.listdir(ctx.dir):
                if f.startswith("progress."):
                    n = int(open(ctx.path(f)).read().strip() or -1)
                    if n >= 0:
                        cur.add(n)
            crashes += 1
            ctx.violate(["V08"], "the validator process died: %s" % "; ".join(msg), "corrupt crash " + msg[0][:80], [json.loads(todo[n]) for n in cur])
            if crashes >= 3 or not cur:
                return
            todo = [l for i, l in enumerate(todo) if i not in cur]

    def programs(lines, budget, tag):
        d = ctx.path("dmg-" + tag)
        os.makedirs(d)
        p = subprocess.run([binary, "-keys", KEYS, "-seed", str(ctx.seed), "-dir", d, "-budget", "%ds" % budget] + progs,
                           input="\n".join(lines) + "\n", capture_output=True, text=True, timeout=budget + 200, errors="replace")
        if p.returncode != 0:
            raise RuntimeError("harness failed: " + p.stderr[-1500:])
        report(ctx, p.stdout)

    def tlc(mode, count, seed):
        _, em, _, _ = ctx.tlc("Corrupt", {"Mode": '"%s"' % mode, "Count": count}, invariants=INV, marker="@X@", seed=seed, timeout=600)
        return sorted(em)

    one = tlc("one", 0, ctx.seed)
    ctx.extra["damages"] = len(one)
    if ctx.thorough:
        library(one, "one")
        ctx.exhaustive.append("every node of every kind of object, every kind of damage, before and after signing")
    else:
        library(one[ctx.seed % 3::3], "one")
    two = tlc("two", 2000 if ctx.thorough else 150, ctx.seed)
    library(two, "two")
    for i in range(3 if ctx.thorough else 0):
        library(tlc("two", 2500, ctx.seed + 31 * i + 1), "two%d" % i)
    mix = one + two
    random.Random(ctx.seed).shuffle(mix)
    programs(mix, 150 if ctx.thorough else 12, "p")
    ctx.samples.append(json.loads(two[len(two) // 2]))

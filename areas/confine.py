"""S03: behaviours of spec/Confine.tla replayed on the octorpki process, run as an unprivileged user."""
import json, os, pwd, subprocess


def run(ctx):
    binary = ctx.gobuild("vh_confine", {"cmd/vh_confine/main.go": "harness/confine/main.go"})
    daemon = ctx.gobuild("octorpki")
    deep = ctx.thorough
    c = {"MaxLen": 3 if deep else 2, "Prefix": "TRUE", "Climb": '"reject"', "Links": '"safe"', "Emitting": "TRUE"}
    _, em, _, _ = ctx.tlc("Confine", c, invariants=["Confined"], marker="@V@", timeout=500)
    em = sorted(set(em))
    ctx.exhaustive.append("model: all URIs of up to %d directories from 8 path elements and 8 hosts, in snapshots, deltas and certificates; 7 trees of symbolic links" % c["MaxLen"])
    # the rules are needed: without any of them the model escapes
    for k, v in (("Prefix", "FALSE"), ("Climb", '"join"'), ("Links", '"any"')):
        _, _, ok, out = ctx.tlc("Confine", dict(c, MaxLen=1, Emitting="FALSE", **{k: v}), invariants=["Confined"], check=False)
        if ok or "Invariant Confined is violated" not in out:
            raise RuntimeError("the model is confined without rule " + k)
    d = ctx.path("confine")
    os.makedirs(d)
    uid = 0
    if os.getuid() == 0:
        try:
            uid = pwd.getpwnam("nobody").pw_uid
        except KeyError:
            uid = 65534
    for p in (ctx.dir, d):
        os.chmod(p, 0o755)
    budget = 500 if deep else 35
    p = subprocess.run([binary, "-octo", daemon, "-dir", d, "-keys", os.path.join(os.path.dirname(__file__), "..", "harness", "keys.pem"), "-seed", str(ctx.seed), "-workers", "8",
                        "-uid", str(uid), "-budget", "%ds" % budget], input="\n".join(em) + "\n", capture_output=True, text=True, timeout=budget + 250, errors="replace")
    if p.returncode != 0:
        raise RuntimeError("harness failed: " + p.stderr[-2000:])
    for l in p.stdout.splitlines():
        r = json.loads(l)
        if "replayed" in r:
            ctx.traces += r["replayed"]
            ctx.log("replayed %(replayed)d of %(of)d behaviours in %(runs)d runs of two daemons" % r)
            if r["replayed"] == r["of"]:
                ctx.exhaustive.append("all of these on octorpki")
        else:
            props = {"crash": ["V08", "S03"], "hang": ["V08", "S03"], "output": ["V06", "V08", "S03"]}.get(r["kind"], ["S03"])
            ctx.violate(props, "%s [%s]" % (r["what"], json.dumps(r["case"])), "confine " + r["kind"], r)
    ctx.samples.append(em[len(em) // 3])
    ctx.assumptions += ["the rsync in use follows --safe-links as rsync 3.2.7 of Ubuntu 24.04 does", "trust anchor locators are trusted: their URIs are not hostile"]

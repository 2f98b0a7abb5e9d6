"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
top = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = []
for f in sorted(glob.glob(os.path.join(top, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], " ".join(m["needs"].split()).replace("|", "/")))
p = os.path.join(top, "DESIGN.md")
s = open(p).read()
t = "<!-- seeded -->\nEvery one of these %d is caught by the quick check of its property (exit 1 and the VIOLATION line).\n\n| planted bug | caught by | needs |\n|---|---|---|\n%s\n<!-- /seeded -->" % (len(rows), "\n".join(rows))
s = re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda m: t, s, flags=re.S)
open(p, "w").write(s)

"""Which planted bugs remove or change lines that this work's own commits added to /repo."""
import re, subprocess, sys, pathlib
seeded = pathlib.Path(__file__).resolve().parent.parent / "seeded"
for d in sorted(seeded.iterdir()):
    p = d / "patch.diff"
    f, n, mine, orig = None, 0, [], 0
    blame = {}
    for l in p.read_text().splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
            blame[f] = subprocess.run(["git", "-C", "/repo", "blame", "-s", "--root", "HEAD", "--", f], text=True, capture_output=True).stdout.splitlines()
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            b = blame[f][n - 1]
            if "33cd350" in b.split()[0]: orig += 1
            else: mine.append(b[:100])
            n += 1
        elif l.startswith(" "):
            n += 1
    ap = subprocess.run(["git", "-C", "/repo", "apply", "--check", str(p)]).returncode
    print(d.name, "orig", orig, "mine", len(mine), "" if ap == 0 else "DOES NOT APPLY", *mine[:3], sep="  ")

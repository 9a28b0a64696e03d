"""Writes the table of planted bugs of DESIGN.md (between the markers) by running each bug's check on a patched copy."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(i):
    d = os.path.join(HERE, "seeded", i)
    meta = json.load(open(d + "/meta.json"))
    w = tempfile.mkdtemp(prefix="seed")
    try:
        shutil.copytree("/repo", w + "/r", ignore=shutil.ignore_patterns(".git"))
        subprocess.run(["git", "init", "-q"], cwd=w + "/r")
        subprocess.run(["git", "apply", d + "/patch.diff"], cwd=w + "/r", check=True)
        p = subprocess.run([sys.executable, "check.py", meta["property"], "--repo", w + "/r", "--jobs", "2"], cwd=HERE,
                           capture_output=True, text=True)
        by = re.findall(r"\[(spec|\w+) @ ([^\]]*\]?[^\]]*)\]$", p.stdout, re.M)
        return i, meta, p.returncode, "; ".join(sorted({"%s" % b.strip() for a, b in by}))[:110]
    finally:
        shutil.rmtree(w)


if __name__ == "__main__":
    rows = ["| bug | property | what it breaks | reported at |", "|---|---|---|---|"]
    with cf.ThreadPoolExecutor(4) as p:
        for i, m, rc, by in p.map(one, sorted(os.listdir(os.path.join(HERE, "seeded")))):
            rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], by if rc == 1 else "**missed**"))
    f = os.path.join(HERE, "DESIGN.md")
    s = open(f).read()
    s = s[:s.index("## 7. Planted bugs")] + s[s.index("## 7. Planted bugs"):].split("\n| bug")[0].rstrip("\n") + "\n\n" + "\n".join(rows) + "\n"
    open(f, "w").write(s)
    print("\n".join(rows))

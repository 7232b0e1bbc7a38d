#!/usr/bin/env python3
"""Lines of pyconform that no simulated job of a quick check (or of fewer cases) executed: tools/cover.py [SHARE [IDS]]"""
import ast
import collections
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = os.environ.get("DST_REPO", "/repo")


def main():
    from dst import props
    share = float(sys.argv[1]) if len(sys.argv) > 1 else 0.2
    ids = sys.argv[2:] or ["C%02d" % i for i in range(1, 25)]
    out = tempfile.mkdtemp(prefix="cover-")
    hits = collections.defaultdict(set)
    for pid in ids:
        d = os.path.join(out, pid)
        n = max(8, int(props.get(pid).quick * share))
        r = subprocess.run([HERE + "/check", pid, "--cases", str(n)], env=dict(os.environ, DST_COVER=d),
                           capture_output=True, text=True)
        print(pid, "exit", r.returncode, flush=True)
        for p in glob.glob(d + "/*.json"):
            for f, ln in json.load(open(p)):
                hits[f].add(ln)
    shutil.rmtree(out)
    for f in sorted(hits):
        text = open(os.path.join(REPO, "pyconform", f)).read()
        lines = text.splitlines()
        want = set()
        for node in ast.walk(ast.parse(text)):
            if isinstance(node, ast.stmt) and not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
                want.add(node.lineno)
        miss = sorted(want - hits[f])
        print("%s: %d of %d statements not executed" % (f, len(miss), len(want)))
        for ln in miss:
            print("   %5d %s" % (ln, lines[ln - 1].strip()[:110]))


if __name__ == "__main__":
    main()

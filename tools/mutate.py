#!/usr/bin/env python3
"""mutate.py gen|tests|checks: small automatic changes to PyConform, as a measure of what the checks see.

gen N SEED DIR      write N random one-place mutants as DIR/mNNN.json (file, line, what, new text)
tests DIR J         run the stable tests on each (J at a time) and note which survive
checks DIR SHARE    run the checks, each with SHARE of its quick cases, on the survivors until one reports
"""
import ast
import concurrent.futures
import glob
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
FILES = ["indexing", "mapdates", "parsing", "dataflow", "functions", "physarray", "datasets", "flownodes", "climIO",
         "cli/xconform", "cli/vardeps"]
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in",
       ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.Mod: "*"}


def sites(text):
    tree = ast.parse(text)
    lines = text.splitlines(keepends=True)
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln.encode()))
    raw = text.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        a, b = span(n)
        return raw[a:b].decode()

    out = []

    def put(n, new, what):
        a, b = span(n)
        out.append((n.lineno, what, a, b, new))

    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            put(n, "%s %s %s" % (seg(n.left), CMP[type(n.ops[0])], seg(n.comparators[0])), "compare")
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            put(n, "(" + op.join("(%s)" % seg(v) for v in n.values) + ")", "bool")
            for i in range(len(n.values)):
                rest = n.values[:i] + n.values[i + 1:]
                op2 = " and " if isinstance(n.op, ast.And) else " or "
                put(n, "(" + op2.join("(%s)" % seg(v) for v in rest) + ")", "drop-clause")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, "(%s)" % seg(n.operand), "not")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            put(n, "(%s)" % seg(n.operand), "minus")
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            put(n.test, "(not (%s))" % seg(n.test), "negate")
            if isinstance(n, (ast.If, ast.IfExp)):
                put(n.test, "True", "always")
                put(n.test, "False", "never")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, (ast.Constant, ast.JoinedStr)):
            put(n, "%s %s %s" % (seg(n.left), BIN[type(n.op)], seg(n.right)), "binop")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            put(n, str(not n.value), "flag")
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            put(n, str(n.value + 1), "number")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            put(n, "pass", "drop-call")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            put(n, "pass", "drop-assign")
        elif isinstance(n, ast.AugAssign):
            put(n, "pass", "drop-aug")
        elif isinstance(n, ast.Raise):
            put(n, "pass", "drop-raise")
        elif isinstance(n, (ast.Continue, ast.Break)):
            put(n, "pass", "drop-jump")
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg and len(n.args) + len(n.keywords) > 1:
                    kw = "%s=%s" % (k.arg, seg(k.value))
                    s = seg(n)
                    if s.count(kw) == 1:
                        t = re.sub(r",\s*" + re.escape(kw), "", s, count=1)
                        if t != s:
                            put(n, t, "drop-keyword " + k.arg)
            f = n.func.id if isinstance(n.func, ast.Name) else None
            if f in ("sorted", "set", "min", "max", "any", "all", "abs"):
                new = {"sorted": "list", "set": "list", "min": "max", "max": "min", "any": "all", "all": "any",
                       "abs": ""}[f]
                put(n.func, new, "call " + f)
            if len(n.args) == 2 and not any(isinstance(x, ast.Starred) for x in n.args):
                a, b = n.args
                s0, s1 = span(a)
                t0, t1 = span(b)
                put(n, raw[span(n)[0]:s0].decode() + seg(b) + raw[s1:t0].decode() + seg(a)
                    + raw[t1:span(n)[1]].decode(), "swap-arguments")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            pass
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            put(n.value, "None", "return-none")
    return out, raw


def gen(n, seed, d):
    os.makedirs(d, exist_ok=True)
    pool = []
    for f in FILES:
        path = "pyconform/%s.py" % f
        text = open("/repo/" + path).read()
        ss, raw = sites(text)
        for ln, what, a, b, new in ss:
            t = (raw[:a] + new.encode() + raw[b:]).decode()
            if t == text:
                continue
            try:
                ast.parse(t)
            except SyntaxError:
                continue
            pool.append({"file": path, "line": ln, "what": what, "old": raw[a:b].decode()[:200], "new": new[:200],
                         "span": [a, b], "text": new})
    random.Random(seed).shuffle(pool)
    print(len(pool), "sites")
    for i, m in enumerate(pool[:n]):
        json.dump(m, open("%s/m%04d.json" % (d, i), "w"), indent=1)


def copy_with(m, tag):
    c = "/tmp/mut/c-%s" % tag
    shutil.rmtree(c, ignore_errors=True)
    shutil.copytree("/repo", c, symlinks=True, ignore=shutil.ignore_patterns(".git", "docs"))
    p = os.path.join(c, m["file"])
    raw = open(p, "rb").read()
    a, b = m["span"]
    open(p, "wb").write(raw[:a] + m["text"].encode() + raw[b:])
    return c


def tests(d, j):
    import stable

    def one(p):
        m = json.load(open(p))
        if "survives" in m:
            return
        c = copy_with(m, os.path.basename(p)[:-5])
        try:
            m["survives"] = not stable.missing(c)
        except Exception as e:
            m["survives"] = False
            m["note"] = str(e)[:200]
        finally:
            shutil.rmtree(c, ignore_errors=True)
        json.dump(m, open(p, "w"), indent=1)

    with concurrent.futures.ThreadPoolExecutor(j) as ex:
        list(ex.map(one, sorted(glob.glob(d + "/m*.json"))))
    ms = [json.load(open(p)) for p in glob.glob(d + "/m*.json")]
    print(sum(m["survives"] for m in ms), "of", len(ms), "survive the stable tests")


def checks(d, share):
    sys.path.insert(0, HERE)
    from dst import props

    order = "C03 C14 C01 C13 C12 C18 C11 C09 C10 C22 C20 C08 C02 C19 C21 C17 C15 C16 C05 C06 C04 C07".split()
    order += ["C23", "C24"]
    for p in sorted(glob.glob(d + "/m*.json")):
        m = json.load(open(p))
        if not m.get("survives") or "caught" in m:
            continue
        mine = list(order)
        if m["file"].endswith("vardeps.py"):
            mine = ["C22"]
        elif m["file"].endswith(("mapdates.py", "climIO.py")):
            mine = ["C19", "C21", "C03"] if m["file"].endswith("mapdates.py") else order
        c = copy_with(m, "chk")
        t = time.time()
        m["caught"] = None
        for pid in mine:
            n = max(8, int(props.get(pid).quick * share))
            r = subprocess.run([HERE + "/check", pid, "--cases", str(n), "--seed", "1"], cwd=HERE,
                               env=dict(os.environ, DST_REPO=c), capture_output=True, text=True)
            if r.returncode == 1:
                m["caught"] = pid
                m["how"] = [x for x in r.stdout.splitlines() if x.startswith("  ")][:1]
                break
            if r.returncode != 0:
                m["caught"] = "ERROR " + pid
                m["how"] = (r.stdout + r.stderr)[-300:]
                break
        json.dump(m, open(p, "w"), indent=1)
        print("%-12s %-28s %-18s %s -> %s [%.0fs] %s" % (
            os.path.basename(p)[:-5], "%s:%d" % (m["file"], m["line"]), m["what"], " ".join(m["old"].split())[:60],
            " ".join(m["new"].split())[:60], time.time() - t, m["caught"]), flush=True)
        shutil.rmtree(c, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "gen":
        gen(int(sys.argv[2]), sys.argv[3], sys.argv[4])
    elif sys.argv[1] == "tests":
        tests(sys.argv[2], int(sys.argv[3]))
    else:
        checks(sys.argv[2], float(sys.argv[3]))

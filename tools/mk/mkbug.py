"""mkbug.py bugs.py [id...]: build seeded bugs from their descriptions, confirm them."""
import importlib.util, json, os, shutil, subprocess, sys, textwrap
spec = importlib.util.spec_from_file_location("bugs", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
only = sys.argv[2:]
BASE = "022dfb2"
for b in m.BUGS:
    if only and b["id"] not in only: continue
    out = os.environ.get("OUT", "/verif/seeded") + "/" + b["id"]
    sc = "/tmp/mkb-" + b["id"]
    shutil.rmtree(sc, ignore_errors=True)
    shutil.copytree("/repo", sc, symlinks=True)
    if b["id"] == "x": continue
    bad = None
    for f, old, new in b["edits"]:
        p = os.path.join(sc, f); s = open(p).read()
        old = old.strip("\n"); new = new.strip("\n")
        if s.count(old) != 1:
            bad = "edit matches %d times in %s: %s" % (s.count(old), f, old[:80]); break
        open(p, "w").write(s.replace(old, new))
    if bad:
        print(b["id"], "BAD", bad); shutil.rmtree(sc); continue
    d = subprocess.run(["git", "-C", sc, "diff"], capture_output=True, text=True).stdout
    orig = 0
    cur = None
    for l in d.splitlines():
        if l.startswith("--- a/"): cur = l[6:]; bt = subprocess.run(["git","-C","/repo","show",BASE+":"+cur],capture_output=True,text=True).stdout.splitlines()
        elif l.startswith("-") and l[1:].strip() and l[1:] in bt: orig += 1
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(d)
    for f in ("h.py", "demo.sh"): shutil.copy(os.path.dirname(os.path.abspath(__file__)) + "/" + f, out)
    os.chmod(out + "/demo.sh", 0o755)
    open(out + "/demo.py", "w").write(textwrap.dedent(b["demo"]).strip() + "\n")
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    open(out + "/meta.json", "a").write("\n")
    r1 = subprocess.run(["bash", out + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
    r2 = subprocess.run(["bash", out + "/demo.sh"], cwd=sc, capture_output=True, text=True)
    t = "-"
    if "--notest" not in os.environ.get("MK", ""):
        sys.path.insert(0,'/verif/tools'); import stable; mm = stable.missing(sc); t = 'tests ok' if not mm else 'TESTS %d %s' % (len(mm), mm[:3])
    ok = r1.returncode == 0 and r2.returncode != 0 and orig > 0
    print(b["id"], "OK" if ok else "PROBLEM", "clean", r1.returncode, "patched", r2.returncode, "origlines", orig, "|", t)
    if r1.returncode: print("  clean:", (r1.stdout + r1.stderr)[-1500:])
    if r2.returncode == 0 or "-v" in os.environ.get("MK", ""): print("  patched:", (r2.stdout + r2.stderr)[-600:])
    else: print("   ", (r2.stdout + r2.stderr).strip().splitlines()[-1:])
    shutil.rmtree(sc)

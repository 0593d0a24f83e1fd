"""python3 docs/refactor.py [NAME...]: applies edits that keep the behaviour (docs/reflist.py) in a scratch copy and expects quiet checks."""
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = []


def ref(name, props, edits):
    R.append((name, props, [e for e in edits if e[1] is not None]))


exec(open(os.path.join(V, "docs", "reflist.py")).read())
args = sys.argv[1:]
for name, props, edits in R:
    if args and not any(name.startswith(a) for a in args):
        continue
    tmp = tempfile.mkdtemp(prefix="ref.")
    w = os.environ.get("REF_DIR", tmp + "/repo")
    subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    for f, old, new in edits:
        p = os.path.join(w, f)
        s = open(p).read()
        assert s.count(old) == 1, (name, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    for prop in props:
        r = subprocess.run(["./run", prop], cwd=V, env=dict(os.environ, VC_REPO=w), capture_output=True, text=True)
        ls = r.stdout.split("\n")
        print(name, prop, "exit", r.returncode, "" if r.returncode == 0 else "<<<<< " + " | ".join(l for l in ls if l.startswith(("VIOLATION", "violated")))[:900] + r.stderr[-800:], [l[-60:] for l in ls if " wall " in l][-1:],
              flush=True)
    shutil.rmtree(tmp)

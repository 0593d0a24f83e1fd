"""python3 docs/seeds.py [ID...]: (re)creates seeded/<id>/ from docs/seedlist.py; -t also tries demo and check in a scratch copy."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = []


def seed(id, prop, edits, demo, needs, breaks, flags=""):
    S.append((id, prop, edits, demo, needs, breaks, flags))


exec(open(os.path.join(V, "docs", "seedlist.py")).read())
args = [a for a in sys.argv[1:] if not a.startswith("-")]
t = "-t" in sys.argv
dn = "-d" in sys.argv     # demos only
for id, prop, edits, demo, needs, breaks, flags in S:
    if args and not any(id.startswith(a) for a in args):
        continue
    d = os.path.join(V, "seeded", id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    tmp = tempfile.mkdtemp(prefix="seed.")
    w = tmp + "/repo"
    subprocess.run(["git", "clone", "-q", os.environ.get("VC_REPO", "/repo"), w], check=True)
    for f, old, new in edits:
        p = os.path.join(w, f)
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True, check=True).stdout
    assert diff.strip(), id
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.cc", "w").write(demo)
    shutil.copytree(V + "/stubs", d + "/stubs")
    shutil.copy(V + "/contracts/prelude.h", d + "/stubs/prelude.h")
    open(d + "/demo.sh", "w").write("""#!/bin/sh
# run in the repository: builds the demonstration against its sources in a scratch directory and runs it
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 9
clang++ -std=c++2b -O1 -w -DSTD -DNDEBUG -DCEREAL_SERIALIZE_FUNCTION_NAME=cereal_serialize -D__cpp_concepts=202002L %s \\
  -include "$d/stubs/prelude.h" -I "$d/stubs" -I "$PWD/include" -I "$PWD" -c "$d/demo.cc" -o "$t/demo.o" || { rm -rf "$t"; exit 8; }
# functions of other source files that the demonstration does not call
{ echo .text; nm -u "$t/demo.o" | awk '/4soro/ {print ".weak " $2; print $2 ":"; print "  ud2"}'; echo '.section .note.GNU-stack,"",@progbits'; } > "$t/u.s"
clang++ "$t/demo.o" -x assembler "$t/u.s" -o "$t/demo" && timeout 60 "$t/demo"
r=$?
rm -rf "$t"
exit $r
""" % flags)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    if t or dn:
        b = subprocess.run(["git", "-C", w, "stash", "-q"])
        r0 = subprocess.run([d + "/demo.sh"], cwd=w, capture_output=True, text=True)
        subprocess.run(["git", "-C", w, "stash", "pop", "-q"])
        r1 = subprocess.run([d + "/demo.sh"], cwd=w, capture_output=True, text=True)
        print(id, prop, "demo clean", r0.returncode, "patched", r1.returncode, "" if r0.returncode == 0 and r1.returncode == 1 else "<<<<<< BAD " + (r0.stderr + r1.stderr)[-1500:], flush=True)
    if t:
        r = subprocess.run(["./run", prop], cwd=V, env=dict(os.environ, VC_REPO=w), capture_output=True, text=True)
        print("   check exit", r.returncode, [l for l in r.stdout.split("\n") if l.startswith(("VIOLATION", "violated"))][:6], [l for l in r.stdout.split("\n") if " wall " in l][-1:], flush=True)
    shutil.rmtree(tmp)

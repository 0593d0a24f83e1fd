"""Compiles a contract file together with the real sources of /repo to LLVM IR (for the verifier) and to a native
binary (for replaying counterexamples)."""
import os
import re
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VC_REPO", "/repo")
CLANG = "/usr/bin/clang++" if os.path.exists("/usr/bin/clang++") else "clang++"
OPT = "/usr/bin/opt" if os.path.exists("/usr/bin/opt") else "/usr/lib/llvm-18/bin/opt"

COMMON = ["-std=c++2b", "-DSTD", "-DNDEBUG", "-DCEREAL_SERIALIZE_FUNCTION_NAME=cereal_serialize",
          "-DVC_VERIFY", "-D__cpp_concepts=202002L", "-w", "-fno-strict-aliasing",
          "-include", VERIF + "/contracts/prelude.h", "-I", VERIF + "/contracts", "-I", VERIF + "/stubs", "-I", REPO + "/include", "-I", REPO]
# undefined behaviour becomes an explicit trap, i.e. a proof obligation
UBSAN = ["-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,unreachable,return,bounds",
         "-fsanitize-trap=all"]


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), (r.stderr or r.stdout)[-6000:]))
    return r.stdout


def common(opts):
    """"asserts": compile with the project's runtime assertions (sassert, expect, ensure) enabled; each becomes an obligation"""
    return [c for c in COMMON if c != "-DNDEBUG"] if opts.get("asserts") else COMMON


def emit_ir(src, out, opts):
    raw = out + ".raw.ll"
    run([CLANG, *common(opts), *opts.get("flags", []), *([] if opts.get("noub") else UBSAN), "-O2", "-fno-vectorize", "-fno-slp-vectorize",
         "-fno-unroll-loops", "-Xclang", "-disable-llvm-passes", "-S", "-emit-llvm", src, "-o", raw])
    noinl = opts.get("noinline", []) + ([r"^(?:\w+ )?soro::utls::sassert_impl<"] if opts.get("asserts") else [])
    text = open(raw).read()
    fns = re.findall(r'^define [^\n]*?@("?[^"(\s]+"?)\(', text, re.M)
    from llvmir import demangle_many
    dem = demangle_many([f.strip('"') for f in fns])
    if noinl:
        pats = [re.compile(p) for p in noinl]
        keep = {f for f in fns if any(p.search(dem[f.strip('"')]) for p in pats)}
        lines = text.split("\n")
        for k, l in enumerate(lines):
            if l.startswith("define "):
                m = re.match(r'^define [^\n]*?@("?[^"(\s]+"?)\(', l)
                if m and m.group(1) in keep:
                    # function attributes follow the parameter list; add ours before the opening brace
                    lines[k] = re.sub(r"(\s(?:personality .*)?\{)$", r" noinline\1", l) if " #" not in l else \
                        re.sub(r"\s#(\d+)", r" noinline #\1", l, count=1)
        text = "\n".join(lines)
        open(raw, "w").write(text)
    text = use_callee_contracts(text, raw)
    text = use_initialisers(text, raw)
    # reachable functions per contract, from the unoptimised module
    calls = {}
    cur = None
    for l in text.split("\n"):
        if l.startswith("define "):
            m = re.match(r'^define [^\n]*?@("?[^"(\s]+"?)\(', l)
            cur = m.group(1).strip('"') if m else None
            calls[cur] = set()
        elif l.startswith("}"):
            cur = None
        elif cur is not None:
            for x in re.findall(r'@("[^"]+"|[\w.$]+)', l):
                calls[cur].add(x.strip('"'))
    thr = str(opts.get("inline", 5000))
    if opts.get("pipeline", "light") == "light":
        # mechanical normalisation only: inlining, promotion of locals to SSA, dead block removal; the resume functions of
        # coroutines get one loop entry (fix-irreducible understands plain branches only, so invoke and switch go first:
        # a throw ends the path with a failed obligation in any case)
        coro = "coro-early,cgscc(coro-split),coro-cleanup," if "llvm.coro.id" in text else ""
        run([OPT, "-inline-threshold=" + thr, "-inlinehint-threshold=" + thr,
             "-passes=" + coro + "function(sroa,simplifycfg),cgscc(inline,function(sroa<modify-cfg>,simplifycfg,instsimplify)),globaldce,"
             "function(sroa<modify-cfg>,simplifycfg," + ("lowerinvoke,simplifycfg,lowerswitch,fix-irreducible," if coro else "") + "loop-simplify,lcssa)",
             "-S", raw, "-o", out])
        os.remove(raw)
        return calls, dem
    run([CLANG, "-O2", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-w", "-mllvm",
         "-inline-threshold=" + thr, "-mllvm", "-inlinehint-threshold=" + thr, "-mllvm", "-vectorize-loops=false",
         "-x", "ir", raw, "-S", "-emit-llvm", "-o", out + ".o2.ll"])
    run([OPT, "-passes=function(simplifycfg,lcssa)", "-S", out + ".o2.ll", "-o", out])
    os.remove(raw)
    os.remove(out + ".o2.ll")
    return calls, dem


def use_callee_contracts(text, raw):
    """VC_CALLEE(f): callers of f use the contract vc_callee__f instead of the body (contracts named impl_* prove the
    body against it and keep their direct calls)"""
    names = re.findall(r'^define [^\n]*?@vc_callee__([\w.$]+)\(', text, re.M)
    if not names:
        return text
    pat = re.compile("@(" + "|".join(re.escape(n) for n in names) + r")\(")
    lines = text.split("\n")
    cur = ""
    for k, l in enumerate(lines):
        if l.startswith("define "):
            m = re.match(r'^define [^\n]*?@("?[^"(\s]+"?)\(', l)
            cur = m.group(1).strip('"') if m else ""
        elif l.startswith("}"):
            cur = ""
        elif cur and "__impl_" not in cur and not cur.startswith("vc_callee__") and ("call" in l or "invoke" in l):
            lines[k] = pat.sub(r"@vc_callee__\1(", l)
    text = "\n".join(lines)
    open(raw, "w").write(text)
    return text


def use_initialisers(text, raw):
    """vc_init_globals("prefix"): runs the dynamic initialisers of the globals whose qualified name starts with prefix"""
    if "@vc_init_globals(" not in text:
        return text
    from llvmir import demangle_many
    strs = dict(re.findall(r'^(@[\w.]+) = [^\n]*constant \[\d+ x i8\] c"([^"]*?)\\00"', text, re.M))
    bodies = re.findall(r'^define [^\n]*?@(__cxx_global_var_init[\w.]*)\(\)[^\n]*\{\n(.*?)^\}', text, re.M | re.S)
    names = sorted({g for _, b in bodies for g in re.findall(r"@(_Z[\w.]+)", b)})
    dem = demangle_many(names)
    out = []
    for l in text.split("\n"):
        m = re.search(r"call void @vc_init_globals\(ptr noundef (@[\w.]+)\)", l)
        if m and m.group(1) in strs:
            pre = strs[m.group(1)]
            out += ["  call void @%s()" % f for f, b in bodies if any(dem[g].startswith(pre) for g in re.findall(r"@(_ZN?L?[\w.]+)", b) if re.search(r"^@" + re.escape(g) + " =", text, re.M))]
        else:
            out.append(l)
    text = "\n".join(out)
    open(raw, "w").write(text)
    return text


def build_native(src, out, opts):
    """functions of other translation units that no contract reaches become traps, so the program always links"""
    flags = [CLANG, *common(opts), *opts.get("flags", []), "-DVC_NATIVE", "-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", *UBSAN]
    run([*flags, "-c", src, "-o", out + ".o"])
    und = [l.split()[-1] for l in run(["nm", "-u", out + ".o"]).split("\n") if "4soro" in l]
    asm = out + ".undef.s"
    with open(asm, "w") as f:
        f.write(".text\n")
        for u in sorted(set(und)):
            f.write(".weak %s\n%s:\n  and $-16, %%rsp\n  call vc_undefined_function\n" % (u, u))
        f.write('.section .note.GNU-stack,"",@progbits\n')
    run([*flags, out + ".o", VERIF + "/rt/vcrt.cc", "-x", "assembler", asm, "-o", out, *opts.get("libs", [])])

#!/usr/bin/env python3
"""Builds the simulators from /repo's current working tree into /verif/build (ignored by git).

build.py lib       library simulator (spb headers + code generated by the real spb-protoc)
build.py protoc    compiler simulator (spb-protoc's sources inside the simulated operating system)
"""
import glob, os, subprocess, sys, filecmp, shutil

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SPB_REPO", "/repo")
B = os.environ.get("SPB_BUILD", os.path.join(V, "build"))
SNAP = os.path.join(B, "snap")
FAMS = ["scal", "modern", "fixed", "limits", "lim2", "lim3", "evo", "ddep", "deep", "opts", "emu"]


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    open(path, "w").write(text)


def snapshot():
    """copy of the sources; only changed files are rewritten so that ninja's mtimes mean something"""
    want = set()
    for top in ("include", "src"):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            for f in fs:
                if not f.endswith((".h", ".hpp", ".cpp", ".cc", ".c", ".hh", ".inl", ".ipp", ".tpp")):
                    continue
                s = os.path.join(d, f)
                rel = os.path.relpath(s, REPO)
                want.add(rel)
                t = os.path.join(SNAP, rel)
                if os.path.exists(t) and filecmp.cmp(s, t, shallow=False):
                    continue
                os.makedirs(os.path.dirname(t), exist_ok=True)
                shutil.copyfile(s, t)
    for d, _, fs in os.walk(SNAP):
        for f in fs:
            rel = os.path.relpath(os.path.join(d, f), SNAP)
            if rel not in want:
                os.unlink(os.path.join(SNAP, rel))


def main():
    what = sys.argv[1:] or ["lib"]
    os.makedirs(B, exist_ok=True)
    snapshot()
    rc, out = build(what, FAMS)
    if rc and "lib" in what:
        # one schema family that does not build does not keep the others from being checked
        rc2, out2 = build(what, FAMS, ["-k", "0"])
        bad = set()
        for line in out2.splitlines():
            if not line.startswith("FAILED: "):
                continue
            fam = {f for f in FAMS for x in line[8:].split() if os.path.basename(x) in (f"{f}.pb.o", f"ops_{f}.o", f"{f}.pb.h", f"{f}.pb.cc")}
            bad |= fam or {"*"}
        if bad and "*" not in bad and len(bad) <= 3:
            print(f"NOTE: these schema families do not build from this tree and are left out: {' '.join(sorted(bad))}")
            rc, out = build(what, [f for f in FAMS if f not in bad])
    if rc:
        sys.stdout.write(out[-20000:])
        return 3
    return 0


def build(what, fams, opts=[]):
    comp = sorted(glob.glob(os.path.join(SNAP, "src/spb-proto-compiler/**/*.cpp"), recursive=True))
    o = []
    w = o.append
    w("ninja_required_version = 1.8")
    w(f"builddir = {B}")
    w("cxxflags = -std=c++20 -g1 -fno-omit-frame-pointer -Wno-everything")
    w(f"inc = -I{SNAP}/include -I{SNAP}/src/spb-proto-compiler")
    w("rule cxx\n  command = clang++ $cxxflags $flags $inc $incx -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CXX $out")
    w("rule gxx\n  command = g++ -std=c++20 -w $flags $inc $incx -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = GXX $out")
    w("rule link\n  command = clang++ $flags $in -o $out $libs\n  description = LINK $out")
    w("rule linkg\n  command = g++ $in -o $out\n  description = LINK $out")
    # the real compiler, as shipped
    objs = []
    for c in comp:
        rel = os.path.relpath(c, SNAP)
        ob = f"{B}/tool/{rel}.o"
        objs.append(ob)
        w(f"build {ob}: gxx {c}\n  flags = -O0")
    w(f"build {B}/spb-protoc: linkg {' '.join(objs)}")
    if "lib" in what:
        w(f"rule gen\n  command = {B}/spb-protoc --cpp_out={B}/gen --proto_path={V}/lib/proto $proto\n  description = SPB-PROTOC $proto")
        gens = []
        deps = "".join(f" {V}/lib/proto/{x}.proto" for x in FAMS)
        for f in fams:
            src = f"{V}/lib/proto/{f}.proto"
            w(f"build {B}/gen/{f}.pb.h {B}/gen/{f}.pb.cc: gen {src} | {B}/spb-protoc{deps}\n  proto = {src}")
            gens.append(f"{B}/gen/{f}.pb.h")
        order = " || " + " ".join(gens)
        san = "-O1 -fsanitize=address -fno-sanitize-address-use-after-scope -ftrivial-auto-var-init=pattern"
        cov = san + " -fsanitize-coverage=trace-pc-guard"
        incx = f'-DPROTO_DIR=\'"{V}/lib/proto"\' ' + f"-I{B}/gen -I{V}/lib/proto -I{V}/lib -I{V}/sim"
        objs = []
        for f in fams:
            for src, nm in ((f"{B}/gen/{f}.pb.cc", f"{f}.pb"), (f"{V}/lib/ops_{f}.cpp", f"ops_{f}")):
                ob = f"{B}/lib/{nm}.o"
                objs.append(ob)
                emu = f" -include {V}/lib/emu.hpp" if f == "emu" else ""
                w(f"build {ob}: cxx {src}{order}\n  flags = {cov}{emu}\n  incx = {incx}")
        plain = sorted(glob.glob(f"{V}/lib/*.cpp")) + sorted(glob.glob(f"{V}/sim/*.cpp"))
        for src in plain:
            nm = os.path.basename(src)[:-4]
            if nm.startswith("ops_"):
                continue
            ob = f"{B}/lib/{nm}.o"
            objs.append(ob)
            fl = "-O1" if nm in ("sancov",) else san
            w(f"build {ob}: cxx {src}{order}\n  flags = {fl}\n  incx = {incx}")
        w(f"build {B}/libsim: link {' '.join(objs)}\n  flags = -fsanitize=address -rdynamic\n  libs = -lprotobuf -lpthread -ldl")
        w(f"build lib: phony {B}/libsim")
    if "protoc" in what:
        objs = []
        flags = "-O1 -fsanitize=address -fno-sanitize-address-use-after-scope"
        for c in comp:
            rel = os.path.relpath(c, SNAP)
            ob = f"{B}/psim/{rel}.o"
            objs.append(ob)
            w(f"build {ob}: cxx {c}\n  flags = {flags} -fsanitize-coverage=trace-pc-guard -Dmain=spb_protoc_main")
        for src in sorted(glob.glob(f"{V}/protoc/*.cpp")) + sorted(glob.glob(f"{V}/sim/*.cpp")):
            nm = os.path.basename(src)[:-4]
            ob = f"{B}/psim/{nm}.o"
            objs.append(ob)
            w(f"build {ob}: cxx {src}\n  flags = {flags}\n  incx = -I{V}/sim -I{V}/protoc")
        w(f"build {B}/protocsim: link {' '.join(objs)}\n  flags = -fsanitize=address -rdynamic\n  libs = -lprotobuf -lpthread -ldl")
        w(f"build protoc: phony {B}/protocsim")
    nj = f"{B}/{'-'.join(what)}.ninja"
    write_if_changed(nj, "\n".join(o) + "\n")
    r = subprocess.run(["ninja", "-f", nj, "-C", B] + opts + (what if what != ["tool"] else [f"{B}/spb-protoc"]), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return (3 if r.returncode else 0), r.stdout


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""Builds the harnesses and the library under test from /repo's working tree.

The library is compiled from every .cpp below /repo/src/cosim except the FMI
and proxy adapters (they need libraries that this sandbox lacks), in one of
several instrumented variants.  The adapters are compiled for harness/fmi.cpp
only, which brings a stand-in for those libraries.  Nothing is written to /repo.
"""
import fcntl, glob, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

COMMON = "-std=c++17 -DBOOST_ALL_DYN_LINK=1 -DBOOST_ALL_NO_LIB -fno-omit-frame-pointer -w"
VARIANTS = {
    # name: (compiler, compile flags, link flags)
    "asan": ("clang++", "-O0 -gline-tables-only -fsanitize=address,undefined "
             "-fno-sanitize=vptr,function -fno-sanitize-recover=all",
             "-fsanitize=address,undefined"),
    "tsan": ("clang++", "-O1 -gline-tables-only -fsanitize=thread", "-fsanitize=thread"),
    "plain": ("g++", "-O1 -g1", ""),
    "fuzz": ("clang++", "-O1 -gline-tables-only -fsanitize=address,undefined,fuzzer-no-link "
             "-fno-sanitize=vptr,function -fno-sanitize-recover=all",
             "-fsanitize=address,undefined,fuzzer"),
}
LIBS = "-lboost_log -lboost_log_setup -lboost_date_time -lboost_thread -lboost_filesystem -lboost_system -lyaml-cpp -lxerces-c -lzip -lz -latomic -lstdc++fs -lpthread -ldl"


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def generate(variant):
    """Generated sources that the repository's CMake build makes too."""
    gen = os.path.join(BUILD, "gen")
    xsd = os.path.join(REPO, "data/xsd/OspSystemStructure.xsd")
    if os.path.exists(xsd):
        content = open(xsd).read()
        write_if_changed(os.path.join(gen, "osp_system_structure_schema.hpp"),
                         'const char* osp_xsd=R"(' + content + ')";')
    info = os.path.join(REPO, "src/cosim/lib_info.cpp.in")
    extra = []
    if os.path.exists(info):
        version = "0.0.0"
        try:
            version = open(os.path.join(REPO, "version.txt")).read().strip()
        except OSError:
            pass
        nums = (version.split("-")[0].split(".") + ["0", "0", "0"])[:3]
        text = open(info).read()
        subst = {"PROJECT_NAME": "libcosim", "PROJECT_VERSION": ".".join(nums),
                 "PROJECT_VERSION_MAJOR": nums[0], "PROJECT_VERSION_MINOR": nums[1],
                 "PROJECT_VERSION_PATCH": nums[2], "CMAKE_PROJECT_VERSION": ".".join(nums)}
        text = re.sub(r"@(\w+)@", lambda m: subst.get(m.group(1), "0"), text)
        out = os.path.join(gen, "cosim/lib_info.cpp")
        write_if_changed(out, text)
        extra.append(out)
    return gen, extra


def sources():
    out = []
    for p in glob.glob(os.path.join(REPO, "src/cosim/**/*.cpp"), recursive=True):
        rel = os.path.relpath(p, os.path.join(REPO, "src/cosim"))
        if rel.split(os.sep)[0] in ("fmi", "proxy"):
            continue
        out.append(p)
    # largest first, so that the slow ones don't end up last
    return sorted(out, key=lambda p: -os.path.getsize(p))


def adapter_sources():
    return sorted(p for d in ("fmi", "proxy") for p in glob.glob(os.path.join(REPO, f"src/cosim/{d}/**/*.cpp"), recursive=True)
                  if os.path.basename(p) != "windows.cpp")


def build(targets, quiet=True):
    """targets: list of (variant, harness name).  Returns {(variant, name): path}."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    variants = sorted({v for v, _ in targets})
    n = ["ninja_required_version = 1.5", "builddir = " + BUILD]
    srcs = sources()
    if not srcs:
        raise RuntimeError("no library sources found in " + REPO)
    exes = {}
    edges = []
    for v in variants:
        cxx, cflags, lflags = VARIANTS[v]
        gen, extra = generate(v)
        inc = f"-I{REPO}/include -I{REPO}/src -I{gen} -I{VERIF}/harness"
        n.append(f"rule cxx_{v}\n  command = {cxx} {COMMON} {cflags} {inc} $x -MMD -MF $out.d -c $in -o $out\n"
                 f"  depfile = $out.d\n  deps = gcc\n  description = [{v}] $in")
        n.append(f"rule ar_{v}\n  command = rm -f $out && ar rcs $out $in\n  description = [{v}] ar")
        n.append(f"rule link_{v}\n  command = {cxx} {lflags} -o $out $in $x {LIBS}\n  description = [{v}] link $out")
        # harness objects first: they're the slowest to compile
        names = [h for (vv, h) in targets if vv == v]
        hobjs = []
        for h in names:
            o = f"{BUILD}/{v}/h/{h}.o"
            edges.append(f"build {o}: cxx_{v} {VERIF}/harness/{h}.cpp")
            hobjs.append(o)
        so = f"{BUILD}/{v}/h/fmi_stub.o"
        edges.append(f"build {so}: cxx_{v} {VERIF}/harness/fmi_stub.cpp")
        lo = f"{BUILD}/{v}/h/log_sink.o"
        edges.append(f"build {lo}: cxx_{v} {VERIF}/harness/log_sink.cpp")
        # The FMI and proxy adapters, for the harness that brings a stand-in for
        # the libraries behind them
        mobjs = []
        if "fmi" in names:
            mx = f"\n  x = -I{VERIF}/harness/mock -DHAS_PROXYFMU"
            edges[-2 - len(names) + names.index("fmi")] += mx
            for s in adapter_sources() + [os.path.join(REPO, "src/cosim/orchestration.cpp")]:
                o = f"{BUILD}/{v}/mock/" + s.strip("/").replace("/", "_") + ".o"
                edges.append(f"build {o}: cxx_{v} {s}" + mx)
                mobjs.append(o)
        objs = []
        for s in srcs + extra:
            o = f"{BUILD}/{v}/lib/" + s.strip("/").replace("/", "_") + ".o"
            edges.append(f"build {o}: cxx_{v} {s}")
            objs.append(o)
        lib = f"{BUILD}/{v}/libcosim_{v}.a"
        edges.append(f"build {lib}: ar_{v} " + " ".join(objs))
        for h, o in zip(names, hobjs):
            e = f"{BUILD}/{v}/{h}"
            own = " ".join(mobjs) if h == "fmi" else so
            edges.append(f"build {e}: link_{v} {o} {own} {lo} {lib}")
            exes[(v, h)] = e
    txt = "\n".join(n + edges) + "\ndefault " + " ".join(exes.values()) + "\n"
    nf = os.path.join(BUILD, "build_" + "_".join(sorted({f"{v}-{h}" for v, h in targets})) + ".ninja")
    write_if_changed(nf, txt)
    t = time.time()
    p = subprocess.run(["ninja", "-C", BUILD, "-f", nf], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        sys.stdout.write(p.stdout[-6000:])
        raise RuntimeError("build failed")
    if not quiet:
        print(f"built {sorted(exes)} in {time.time()-t:.1f} s")
    lock.close()
    return exes


if __name__ == "__main__":
    tg = [tuple(a.split(":")) for a in sys.argv[1:]]
    build(tg, quiet=False)

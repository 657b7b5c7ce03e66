#!/usr/bin/env python3
"""Builds the harness executables from /repo's working tree (incremental, ninja)."""
import os, subprocess, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("VERIF_REPO", "/repo")
B = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
T = os.path.join(B, "tree")
MAXT = 8

# tree container routines of the C++ library
TREE = [("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_", "vt_rb_insert"),
        ("_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_", "vt_rb_erase"),
        ("_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base", "vt_rb_inc"),
        ("_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base", "vt_rb_cinc"),
        ("_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base", "vt_rb_dec"),
        ("_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base", "vt_rb_cdec")]


def sync():
    """mirrors /repo's sources by content, so that time stamps of the checked tree do not matter"""
    keep = set()
    for d in ("src", "include", "third_party"):
        for p, dirs, files in os.walk(os.path.join(R, d)):
            dirs[:] = [x for x in dirs if not x.startswith((".git", "_build"))]
            for f in files:
                if not f.endswith((".cpp", ".h", ".hpp", ".cc", ".c", ".hh", ".ipp", ".inl", ".inc")):
                    continue
                s = os.path.join(p, f)
                t = os.path.join(T, os.path.relpath(s, R))
                keep.add(t)
                with open(s, "rb") as h:
                    c = h.read()
                try:
                    with open(t, "rb") as h:
                        if h.read() == c:
                            continue
                except OSError:
                    pass
                os.makedirs(os.path.dirname(t), exist_ok=True)
                with open(t, "wb") as h:
                    h.write(c)
    for p, _, files in os.walk(T):
        for f in files:
            if os.path.join(p, f) not in keep:
                os.unlink(os.path.join(p, f))


def main(targets):
    global R
    os.makedirs(B, exist_ok=True)
    sync()
    R = T
    defs = ("-DSHIRAKAMI_LINUX -DINDEX_YAKUSHIMA -DYAKUSHIMA_EPOCH_TIME=40 -DPWAL "
            f"-DPROJECT_ROOT={R} -DKVS_MAX_PARALLEL_THREADS={MAXT} -DYAKUSHIMA_MAX_PARALLEL_SESSIONS={MAXT} "
            "-DPARAM_EPOCH_TIME=0 -DPARAM_RETRY_READ=0 -DPARAM_SNAPSHOT_EPOCH=25 -DPARAM_CHECKPOINT_REST_EPOCH=40 "
            "-DPARAM_PWAL_LOG_GCOMMIT_THRESHOLD=1000 -DPARAM_CPR_DIFF_SET_RESERVE_NUM=0 "
            "-DHAVE_LIMESTONE_CONFIG_CTOR_NONE=1 -DHAVE_LIMESTONE_CONFIG_SET_DATA_LOCATION_STDFSPATH=1 "
            "-DHAVE_LIMESTONE_DATASTORE_CREATE_CHANNEL_NONE=1 -D_GLIBCXX_EXTERN_TEMPLATE=0 -DNDEBUG")
    inc = (f"-I{V}/shadow -I{V}/standin -I{V}/standin/yakushima/include -I{R}/include -I{R}/src -I{R}/src/include "
           f"-I{R}/third_party")
    common = f"-std=c++17 -O1 -g1 -w -mcx16 -fno-pie -fno-omit-frame-pointer -include {V}/shadow/prelude.h"
    n = []
    n.append("ninja_required_version = 1.5")
    n.append(f"inc = {inc}\ndefs = {defs}\ncommon = {common}")
    # engine: instrumented; libc copy routines are routed through the runtime
    n.append("rule eng\n  command = g++ $common $inc $defs -fsanitize=thread --param=tsan-instrument-func-entry-exit=0 "
             "-MMD -MF $out.d -c $in -o $out.t && objcopy --redefine-sym memcpy=vt_memcpy "
             "--redefine-sym memmove=vt_memmove --redefine-sym memcmp=vt_memcmp --redefine-sym memset=vt_memset " +
             " ".join(f"--redefine-sym {a}={b}" for a, b in TREE) + " $out.t $out "
             "&& rm -f $out.t\n"
             "  depfile = $out.d\n  deps = gcc\n  description = ENG $in")
    n.append("rule plain\n  command = g++ $common -fno-builtin-malloc $inc $defs -MMD -MF $out.d -c $in -o $out\n"
             "  depfile = $out.d\n  deps = gcc\n  description = CXX $in")
    n.append("rule link\n  command = g++ -no-pie $in -o $out -lglog -lgflags -ltbb -lboost_filesystem -latomic -lpthread -ldl\n"
             "  description = LINK $out")
    objs = []
    def add(rule, src):
        name = os.path.relpath(src, R) if src.startswith(R + "/") else "v_" + os.path.relpath(src, V)
        o = f"{B}/o/" + name.replace("/", "_") + ".o"
        n.append(f"build {o}: {rule} {src}")
        return o
    eng = [add("eng", s) for s in sorted(glob.glob(f"{R}/src/**/*.cpp", recursive=True))]
    sup = [add("plain", f"{V}/rt/rt.cpp"), add("plain", f"{V}/standin/limestone/limestone.cpp"),
           add("plain", f"{V}/standin/yakushima/yakushima.cpp")]
    lib = [add("plain", s) for s in sorted(glob.glob(f"{V}/harness/lib/*.cpp"))]
    exes = []
    for s in sorted(glob.glob(f"{V}/harness/*.cpp")):
        o = add("plain", s)
        e = f"{B}/" + os.path.basename(s)[:-4]
        n.append(f"build {e}: link {o} {' '.join(lib)} {' '.join(sup)} {' '.join(eng)}")
        exes.append(e)
    n.append("default " + " ".join(exes))
    path = f"{B}/build.ninja"
    txt = "\n".join(n) + "\n"
    if not os.path.exists(path) or open(path).read() != txt:
        open(path, "w").write(txt)
    want = [f"{B}/{t}" for t in targets]
    r = subprocess.run(["ninja", "-f", path, "-C", B, "--quiet"] + want, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout[-8000:])
    return r.returncode

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))

#!/usr/bin/env python3
"""Content-addressed incremental builder of /repo's sources plus the drivers in /verif/driver.

An object is reused only when the sha256 of its command line and of every file it was compiled from (as listed
by g++ -MMD) equals what /repo's working tree holds now; mtimes are never consulted.
Usage: build.py [target ...]   (targets: see TARGETS); prints nothing on success.
"""
import fcntl, glob, hashlib, json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
D64 = "-D_FILE_OFFSET_BITS=64 -D_LARGEFILE64_SOURCE -D_LARGEFILE_SOURCE".split()
INC = ("-I%s/_build/shim/inc -I./tools/antlr4-cpp-runtime-4/runtime/src -I./tools/log4cplus/include "
       "-I./tools/workflow/_include -I./tools/zlib-1.3/include -I." % REPO).split()
VARIANTS = {
    "opt": "-DGSTORE_VERIF -O2 -pthread -std=c++11 -fopenmp -w -Werror=return-type".split(),
    "asan": ("-DGSTORE_VERIF -O1 -g1 -pthread -std=c++11 -fopenmp -w -fsanitize=address -fno-omit-frame-pointer "
             "-Werror=return-type").split(),
}
for v in VARIANTS.values(): v += os.environ.get("VERIF_XFLAGS", "").split()     # e.g. --coverage, by hand
CORE = """KVstore/KVstore KVstore/SITree/SITree KVstore/SITree/storage/SIStorage KVstore/SITree/node/SINode
KVstore/SITree/node/SIIntlNode KVstore/SITree/node/SILeafNode KVstore/SITree/heap/SIHeap
KVstore/IVArray/IVArray KVstore/IVArray/IVEntry KVstore/IVArray/IVBlockManager
KVstore/ISArray/ISArray KVstore/ISArray/ISEntry KVstore/ISArray/ISBlockManager
StringIndex/StringIndex Parser/RDFParser Parser/SPARQL/SPARQLParser Parser/SPARQL/SPARQLLexer Parser/TurtleParser
Parser/QueryParser Server/Operation Server/Server Server/Socket
Database/Database Database/Join Database/CSR Database/Txn_manager Database/TableOperator Database/PlanTree
Database/PlanGenerator Database/Executor Database/Optimizer
Util/Slog Util/Util Util/Bstr Util/Stream Util/Triple Util/VList Util/EvalMultitypeValue Util/IDTriple Util/Version
Util/Transaction Util/Latch Util/IPWhiteList Util/IPBlackList Util/SpinLock Util/GraphLock Util/WebUrl Util/INIParser
Util/OrderedVector Util/CompressFileUtil
Query/topk/DPB/DynamicTrie Query/topk/DPB/OrderedList Query/topk/DPB/Pool Query/topk/TopKUtil Query/topk/DPBTopKUtil
Query/topk/TopKSearchPlan
Query/SPARQLquery Query/BasicQuery Query/ResultSet Query/IDList Query/DFSPlan Query/Varset Query/QueryTree
Query/TempResult Query/QueryCache Query/GeneralEvaluation Query/PathQueryHandler Query/BGPQuery Query/FilterPlan
Trie/Trie Trie/TrieNode""".split()
MAINS = "gbuild gquery gadd gsub ghttp gmonitor gshow ginit gdrop gbackup grestore gexport gconsole".split()
LIBS = ("-L/usr/lib64 -L%s/lib -lreadline -lantlr4-runtime -lgcov -lboost_thread -lboost_system -lboost_regex "
        "-lpthread -lcurl -llog4cplus -lz -lminizip -fopenmp -ldl" % REPO).split()
# target -> (variant, [sources], driver source or None, extra link flags)
TARGETS = {"gsdrv": ("opt", CORE, "gsdrv.cpp"), "gsdrv-asan": ("asan", CORE, "gsdrv.cpp"),
           "kvdrv": ("opt", CORE, "kvdrv.cpp"), "kvdrv-asan": ("asan", CORE, "kvdrv.cpp"),
           "unitdrv": ("opt", CORE + ["GRPC/APIUtil"], "unitdrv.cpp"),
           "unitdrv-asan": ("asan", CORE + ["GRPC/APIUtil"], "unitdrv.cpp")}
for m in MAINS:
    TARGETS[m] = ("opt", CORE + ["Main/" + m] + (["GRPC/APIUtil"] if m == "ghttp" else []), None)

_sha = {}
def sha(path):
    if path not in _sha:
        try:
            with open(path, "rb") as f:
                _sha[path] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _sha[path] = "absent"
    return _sha[path]

def parse_d(path):
    txt = open(path).read().replace("\\\n", " ")
    first = txt.split("\n\n")[0].split("\n")[0]
    deps = first.split(":", 1)[1].split()
    return [d if os.path.isabs(d) else os.path.join(REPO, d) for d in deps]

def norm(p):
    return os.path.normpath(p)

def compile_obj(variant, src):
    """src: path without .cpp relative to REPO, or absolute driver .cpp. Returns object path."""
    if src.startswith("/"):
        cpp, name = src, "drv_" + os.path.basename(src)[:-4]
    else:
        cpp, name = src + ".cpp", src.replace("/", "_")
    d = os.path.join(BUILD, variant)
    obj, meta, dep = (os.path.join(d, name + e) for e in (".o", ".json", ".d"))
    d64 = D64 if any(k in src for k in ("Stream", "SIStorage", "StringIndex", "IPWhite", "IPBlack", "Compress", "ghttp",
                                        "APIUtil")) else []
    cmd = ["g++"] + VARIANTS[variant] + d64 + INC + ["-I" + os.path.join(VERIF, "driver"), "-MMD", "-MF", dep, "-c", cpp, "-o", obj]
    key = " ".join(cmd)
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            m = json.load(open(meta))
            if m["cmd"] == key and all(sha(p) == h for p, h in m["deps"].items()) and m["obj"] == sha(obj):
                return obj, None
        except Exception:
            pass
    for _ in range(3):
        r = subprocess.run(cmd, cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode == 0 or b"Killed" not in r.stdout: break       # the machine ran out of memory: try again
    if r.returncode != 0:
        return obj, "compile failed: %s\n%s" % (key, r.stdout.decode(errors="replace")[-3000:])
    # system headers are not listed by -MMD: the toolchain is part of the sandbox
    deps = {norm(p): sha(norm(p)) for p in parse_d(dep)}
    _sha.pop(obj, None)
    json.dump({"cmd": key, "deps": deps, "obj": sha(obj)}, open(meta, "w"))
    return obj, None

def build(*targets):
    """Builds the targets, returns {target: path}. Raises RuntimeError when /repo does not compile."""
    os.makedirs(BUILD, exist_ok=True)
    out = {}
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        _sha.clear()
        jobs = []
        for t in targets:
            v, srcs, drv = TARGETS[t]
            os.makedirs(os.path.join(BUILD, v), exist_ok=True)
            for s in srcs + ([os.path.join(VERIF, "driver", drv)] if drv else []):
                if (v, s) not in jobs:
                    jobs.append((v, s))
        big = {"Query/GeneralEvaluation": 0, "Parser/SPARQL/SPARQLParser": 0, "Main/ghttp": 0, "Database/Database": 0,
               "GRPC/APIUtil": 0, "Parser/QueryParser": 0}
        jobs.sort(key=lambda j: big.get(j[1], 1))
        with ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
            res = dict(zip(jobs, ex.map(lambda j: compile_obj(*j), jobs)))
        errs = [e for _, e in res.values() if e]
        if errs:
            raise RuntimeError(errs[0])
        def link(t):
            v, srcs, drv = TARGETS[t]
            objs = [res[(v, s)][0] for s in srcs + ([os.path.join(VERIF, "driver", drv)] if drv else [])]
            exe = os.path.join(BUILD, v, "bin", t)
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            cmd = ["g++"] + (["-fsanitize=address"] if v == "asan" else []) + ["-rdynamic", "-o", exe] + objs + \
                (["-ljemalloc"] if v == "opt" else []) + LIBS
            key = hashlib.sha256((" ".join(cmd) + "".join(sha(o) for o in objs)).encode()).hexdigest()
            kf = exe + ".key"
            if os.path.exists(exe) and os.path.exists(kf) and open(kf).read() == key:
                return t, exe, None
            r = subprocess.run(cmd, cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0:
                return t, exe, "link failed: %s\n%s" % (t, r.stdout.decode(errors="replace")[-3000:])
            open(kf, "w").write(key)
            return t, exe, None
        with ThreadPoolExecutor(8) as ex:
            for t, exe, err in ex.map(link, targets):
                if err:
                    raise RuntimeError(err)
                out[t] = exe
    return out

if __name__ == "__main__":
    try:
        build(*(sys.argv[1:] or ["gsdrv"]))
    except RuntimeError as e:
        sys.stderr.write(str(e) + "\n")
        sys.exit(1)

#!/usr/bin/env python3
"""Which lines of the code under test the workloads reach: builds them with clang's source-based coverage (counters in a
shared mapping, so that those of the forked runs count too), explores for a while and reports per file.
usage: [COV=F] coverage.py SECONDS [DIR [SCENARIOS]]     (not part of any check; F: the whole program)"""
import os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build as b

secs = sys.argv[1] if len(sys.argv) > 1 else "20"
root = sys.argv[2] if len(sys.argv) > 2 else "/tmp/cov"
os.makedirs(root, exist_ok=True)
b.version_header(os.path.join(root, "gen"))
cov = "-fprofile-instr-generate -fcoverage-mapping -mllvm -runtime-counter-relocation"
full = os.environ.get("COV") == "F"
f = " ".join([b.COMMON.replace("c++14", "c++17") + " " + b.FULL if full else b.COMMON, "-O1", b.inc(root)])
n = b.Ninja(root)
objs = []
wl = sorted(os.path.join(b.WORK, x) for x in os.listdir(b.WORK) if x.endswith(".cc") and x != "threads.cc")
if full:
    wl = [os.path.join(b.WORK, s) for s in ("node.cc", "tree.cc", "oracle.cc")] + \
        [os.path.join(b.PIPE, s) for s in sorted(os.listdir(b.PIPE)) if s.endswith(".cc")] + [os.path.join(b.STANDIN, "markdown.cc")]
objs += [n.obj(s, f + " " + cov, "wl") for s in wl]
objs += [n.obj(os.path.join(b.ENGINE, s), f + " -std=c++17", "eng") for s in ("core.cc", "alloc.cc", "io.cc", "main.cc")]
open(root + "/stub.cc", "w").write('extern "C" unsigned long __asan_get_alloc_stack(void*, void**, unsigned long, int*) { return 0; }\n'
    'extern "C" void __sanitizer_symbolize_pc(void*, const char*, char*, unsigned long) {}\n')
objs.append(n.obj(root + "/stub.cc", f, "eng"))
objs.append(n.lib("libsut.a", [n.obj(s, f + " " + cov + (" -Dmain=drafter_main" if s.endswith("/main.cc") else ""), "sut")
                                 for s in (b.full_sources() if full else b.subset_sources())]))
exe = n.exe("sim-c", objs, "-fprofile-instr-generate -rdynamic -ldl -lpthread " + " ".join("-Wl,--wrap=" + w for w in b.WRAPS_A))
def run(targets, log):
    text = "\n".join(["rule cxx\n  command = clang++ $flags -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc",
                      "rule ar\n  command = rm -f $out && ar crs $out $in",
                      "rule link\n  command = clang++ $in $flags -o $out"] + n.lines) + "\n"
    open(os.path.join(root, "build.ninja"), "w").write(text)
    return subprocess.call(["ninja", "-C", root] + targets, stdout=open(log, "w"), stderr=subprocess.STDOUT)
if run([exe], root + "/log"):
    sys.exit("".join(open(root + "/log").readlines()[-10:]))
sc = sys.argv[3] if len(sys.argv) > 3 else "pipe-history:2,pipe-damage:2,pipe-oom,tool" if full else "oom-tree,oom-registry,oom-text,oom-any,history-tree,history-registry,cancel,sink,stream-any,stream-report,stream-read,stream-write,damage"
ps = []
for w in range(4):
    env = dict(os.environ, LLVM_PROFILE_FILE=root + "/w%d%%c.profraw" % w)
    os.makedirs(root + "/o", exist_ok=True)
    ps.append(subprocess.Popen([exe, "explore", "--scenarios=" + sc, "--seed=1", "--worker=%d" % w, "--stride=4", "--time=" + secs,
                                "--out=" + root + "/o", "--maxkeys=20"], env=env))
for p in ps:
    p.wait()
import glob
subprocess.check_call("llvm-profdata-18 merge -o %s/m.prof %s/w*.profraw" % (root, root), shell=True)
subprocess.call("llvm-cov-18 report %s -instr-profile=%s/m.prof --ignore-filename-regex='verif|/usr/|boost' " % (exe, root), shell=True)
subprocess.call("llvm-cov-18 show %s -instr-profile=%s/m.prof --ignore-filename-regex='verif|/usr/|boost' -show-instantiations=false > %s/show.txt" % (exe, root, root), shell=True)

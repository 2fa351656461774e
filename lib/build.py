"""Builds the simulators from /repo's working tree, with ninja, in a directory git ignores."""
import os, re, subprocess, sys, hashlib, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PK = os.path.join(REPO, "packages")

# What cannot be compiled without the absent submodules (sundown, PEGTL, MPark.Variant, cmdline).
# The same list as /opt/vp/cmake/CMakeLists.txt.
SKIP = {
    "apib": [],
    "apib-parser": [
        r"src/MediaTypeParser\.cc", r"src/markdown-parser/MarkdownParser\.cc",
        r"src/snowcrash/(Blueprint|BlueprintSourcemap|HTTP|HeadersParser|Signature|UriTemplateParser|snowcrash)\.cc",
        r"src/snowcrash/(MSON|MSONOneOfParser|MSONSourcemap|MSONTypeSectionParser|MSONValueMemberParser)\.cc",
        r"src/snowcrash/win/RegexMatch\.cc",
    ],
    "drafter": [
        r"src/(ConversionContext|MsonOneOfSectionToApie|MsonTypeSectionToApie|NamedTypesRegistry|Render)\.cc",
        r"src/(RefractAPI|RefractDataStructure|RefractElementFactory|RefractSourceMap|Serialize|SerializeResult)\.cc",
        r"src/(main|config|drafter)\.cc",
        r"src/refract/(ElementUtils|JsonSchema|JsonUtils|JsonValue|SerializeSo)\.cc",
        r"src/utils/so/(JsonIo|Value|YamlIo)\.cc",
    ],
}
# every .cc of these directories is part of the program, listed in CMakeLists.txt or not
def project_sources(package, full=False):
    out = []
    with open(os.path.join(PK, package, "CMakeLists.txt")) as f:
        for line in f:
            m = re.match(r"^ +([A-Za-z0-9_./-]+\.cc) *$", line)
            if m and (full or not any(re.fullmatch(s, m.group(1)) for s in SKIP[package])):
                p = os.path.join(PK, package, m.group(1))
                if p not in out:
                    out.append(p)
    return out


def subset_sources():
    s = []
    for p in ("apib", "apib-parser", "drafter"):
        s += project_sources(p)
    rx = os.path.join(PK, "apib-parser/src/snowcrash/posix/RegexMatch.cc")
    if rx not in s:
        s.append(rx)
    return s


def full_sources():
    """Everything that the project consists of; the third-party parts come from sim/standin."""
    s = []
    for p in ("apib", "apib-parser", "drafter"):
        s += [f for f in project_sources(p, True) if "/win/" not in f]
    for f in ("apib-parser/src/snowcrash/posix/RegexMatch.cc", "drafter/src/main.cc", "drafter/src/config.cc",
              "drafter/src/drafter.cc"):
        f = os.path.join(PK, f)
        if f not in s:
            s.append(f)
    return s


INCLUDES = ["boost", "apib/include", "apib-parser/include", "apib-parser/src", "apib-parser/src/snowcrash",
            "apib-parser/src/markdown-parser", "drafter/src"]


def version_header(to):
    text = open(os.path.join(PK, "drafter/CMakeLists.txt")).read()
    m = re.search(r"project\(Drafter VERSION ((\d+)\.(\d+)\.(\d+))", text)
    v = {"PROJECT_VERSION": m.group(1), "PROJECT_VERSION_MAJOR": m.group(2), "PROJECT_VERSION_MINOR": m.group(3),
         "PROJECT_VERSION_PATCH": m.group(4), "DRAFTER_VERSION_IS_RELEASE": "1"} if m else {}
    src = open(os.path.join(PK, "drafter/src/Version.h.in")).read()
    src = re.sub(r"@(\w+)@", lambda k: v.get(k.group(1), "0"), src)
    src = re.sub(r"#cmakedefine01 (\w+)", lambda k: "#define %s %s" % (k.group(1), v.get(k.group(1), "0")), src)
    src = re.sub(r"#cmakedefine (\w+)", lambda k: "#define %s" % k.group(1), src)
    os.makedirs(to, exist_ok=True)
    write_if_changed(os.path.join(to, "Version.h"), src)


def write_if_changed(path, text):
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, "w") as f:
        f.write(text)


WRAPS_A = ["malloc", "calloc", "realloc", "free", "strdup", "regcomp", "regfree", "regexec", "exit"]
WRAPS_B = ["memcpy", "memmove", "memset", "memcmp", "memchr", "strlen", "strcmp", "strcasecmp", "strncmp",
           "strtok", "setlocale", "localtime", "gmtime", "asctime", "ctime", "rand", "strerror", "setenv", "putenv",
           "regcomp", "regfree", "regexec", "snprintf", "sprintf", "vsnprintf", "strcpy", "strncpy", "strcat", "strchr",
           "strrchr", "strstr", "getenv", "malloc", "calloc", "realloc", "free", "strdup"]

COMMON = "-std=c++14 -g1 -fno-omit-frame-pointer -DCMAKE_BUILD_TYPE=RelWithDebInfo -DDRAFTER_BUILD_STATIC=1 -DNDEBUG -fPIC -w"
# build A: allocation and I/O faults, memory errors
FLAGS_A = "-O1 -fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS"
# build B: schedules. Every access of the code under test calls the simulator's own runtime (libtsan is not linked).
FLAGS_B = "-O1 -U_FORTIFY_SOURCE -fsanitize=thread -fno-builtin -include " + os.path.join(VERIF, "sim/include/templates.h")
FLAGS_B_ENGINE = "-O1"


class Ninja:
    def __init__(self, root):
        self.root = root
        self.lines = ["builddir = " + root]
        self.outs = []

    def obj(self, src, flags, tag):
        rel = os.path.relpath(src, "/").replace("/", "_")
        o = os.path.join(self.root, tag, rel + ".o")
        self.lines.append("build %s: cxx %s\n  flags = %s" % (o, src, flags))
        return o

    def lib(self, name, objs):
        # an archive, as in the project's own build: what cannot be linked without absent parts is not pulled in
        out = os.path.join(self.root, name)
        self.lines.append("build %s: ar %s" % (out, " ".join(objs)))
        return out

    def exe(self, name, objs, flags):
        out = os.path.join(self.root, name)
        self.lines.append("build %s: link %s\n  flags = %s" % (out, " ".join(objs), flags))
        self.outs.append(out)
        return out

    def run(self, targets, log):
        text = "\n".join(["rule cxx\n  command = g++ $flags -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc",
                          "rule ar\n  command = rm -f $out && ar crs $out $in",
                          "rule link\n  command = g++ $in $flags -o $out"] + self.lines) + "\n"
        write_if_changed(os.path.join(self.root, "build.ninja"), text)
        with open(log, "w") as f:
            rc = subprocess.call(["ninja", "-C", self.root] + targets, stdout=f, stderr=subprocess.STDOUT)
        return rc


def inc(root, extra=()):
    return " ".join("-I" + os.path.join(PK, i) for i in INCLUDES) + " -I" + os.path.join(root, "gen") + \
        "".join(" -I" + e for e in extra)


ENGINE = os.path.join(VERIF, "sim/engine")
WORK = os.path.join(VERIF, "sim/workloads")
PIPE = os.path.join(VERIF, "sim/pipeline")
PIPE_T = os.path.join(VERIF, "sim/pipeline_threads")
STANDIN = os.path.join(VERIF, "sim/standin")
# the whole program: the absent third-party headers come from the stand-ins, which need C++17
FULL = "-include cstdint -I%s -I%s/here" % (STANDIN, STANDIN)


def build(root, what, log):
    """what: list of 'A', 'B', 'BL', 'F'. Returns {what: path of the executable}; raises RuntimeError."""
    os.makedirs(root, exist_ok=True)
    version_header(os.path.join(root, "gen"))
    n = Ninja(root)
    srcs = subset_sources()
    wl = sorted(os.path.join(WORK, f) for f in os.listdir(WORK) if f.endswith(".cc"))
    out = {}
    want = []
    if "A" in what:
        f = " ".join([COMMON, FLAGS_A, inc(root)])
        lib = n.lib("libsut-a.a", [n.obj(s, f, "a/sut") for s in srcs])
        objs = [n.obj(s, f, "a/wl") for s in wl if os.path.basename(s) not in ("threads.cc",)]
        objs.append(lib)
        eng = " ".join([COMMON, "-O1 -std=c++17"])
        objs += [n.obj(os.path.join(ENGINE, s), eng, "a/eng") for s in ("core.cc", "alloc.cc", "io.cc", "main.cc")]
        out["A"] = n.exe("sim-a", objs, "-fsanitize=address,undefined -rdynamic -ldl -lpthread " +
                         " ".join("-Wl,--wrap=" + w for w in WRAPS_A))
        want.append(out["A"])
    if "F" in what:
        f = " ".join([COMMON.replace("c++14", "c++17"), FLAGS_A, FULL, inc(root)])
        srcs_f = full_sources()
        lib = n.lib("libsut-f.a", [n.obj(s, f + (" -Dmain=drafter_main" if s.endswith("/main.cc") else ""), "f/sut") for s in srcs_f])
        objs = [n.obj(os.path.join(WORK, s), f, "f/wl") for s in ("node.cc", "tree.cc", "oracle.cc")]
        objs += [n.obj(os.path.join(PIPE, s), f, "f/wl") for s in sorted(os.listdir(PIPE)) if s.endswith(".cc")]
        objs.append(n.obj(os.path.join(STANDIN, "markdown.cc"), f, "f/standin"))
        objs.append(lib)
        eng = " ".join([COMMON, "-O1 -std=c++17"])
        objs += [n.obj(os.path.join(ENGINE, s), eng, "f/eng") for s in ("core.cc", "alloc.cc", "io.cc", "main.cc")]
        out["F"] = n.exe("sim-f", objs, "-fsanitize=address,undefined -rdynamic -ldl -lpthread " +
                         " ".join("-Wl,--wrap=" + w for w in WRAPS_A))
        want.append(out["F"])
    if "BF" in what:
        base = COMMON.replace("c++14", "c++17")
        f = " ".join([base, FLAGS_B, FULL, inc(root)])
        lib = n.lib("libsut-bf.a", [n.obj(s, f + (" -Dmain=drafter_main" if s.endswith("/main.cc") else ""), "bf/sut") for s in full_sources()])
        objs = [n.obj(os.path.join(WORK, s), f, "bf/wl") for s in ("node.cc", "tree.cc")]
        objs += [n.obj(os.path.join(PIPE, "doc.cc"), f, "bf/wl"), n.obj(os.path.join(PIPE, "corpus.cc"), f, "bf/wl"), n.obj(os.path.join(PIPE_T, "pthreads.cc"), f, "bf/wl")]
        objs.append(n.obj(os.path.join(STANDIN, "markdown.cc"), f, "bf/standin"))
        objs.append(lib)
        eng = " ".join([COMMON, FLAGS_B_ENGINE, "-std=c++17 -DSIM_CELL_BITS=22"])
        objs += [n.obj(os.path.join(ENGINE, s), eng, "bf/eng") for s in ("core.cc", "sched.cc", "main.cc")]
        out["BF"] = n.exe("sim-bf", objs, "-no-pie -rdynamic -ldl -lpthread " + " ".join("-Wl,--wrap=" + w for w in WRAPS_B))
        want.append(out["BF"])
    for b, extra in (("B", ""), ("BL", "-DLOGGING")):
        if b not in what:
            continue
        f = " ".join([COMMON, FLAGS_B, extra, inc(root)])
        tag = b.lower()
        lib = n.lib("libsut-%s.a" % tag, [n.obj(s, f, tag + "/sut") for s in srcs])
        objs = [n.obj(os.path.join(WORK, s), f, tag + "/wl") for s in ("ops.cc", "oracle.cc", "node.cc", "tree.cc", "threads.cc")]
        objs.append(lib)
        eng = " ".join([COMMON, FLAGS_B_ENGINE, extra, "-std=c++17"])
        objs += [n.obj(os.path.join(ENGINE, s), eng, tag + "/eng") for s in ("core.cc", "sched.cc", "main.cc")]
        out[b] = n.exe("sim-" + tag, objs, "-no-pie -rdynamic -ldl -lpthread " + " ".join("-Wl,--wrap=" + w for w in WRAPS_B))
        want.append(out[b])
    if n.run(want, log):
        raise RuntimeError("the build failed:\n" + "".join(open(log).readlines()[-60:]))
    return out


if __name__ == "__main__":
    root = os.environ.get("VERIF_BUILD") or os.path.join(VERIF, "build")
    print(build(root, sys.argv[1:] or ["A"], os.path.join(root, "log") if os.path.isdir(root) else "/tmp/log"))

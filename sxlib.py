"""Build pipeline, symbolic runs and native replay for the geoarrow-c checks."""
import hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SX_REPO", "/repo")
BIN = "/usr/lib/llvm-18/bin"
OUT = os.path.join(VERIF, "_build")
SYMX = os.path.join(OUT, "symx")
NPROC = 8

C_SRC = ["schema", "schema_view", "metadata", "kernel", "builder", "array_view", "util", "visitor",
         "geometry", "native_writer", "scalar_udf", "wkb_reader", "wkb_writer", "wkt_reader",
         "wkt_writer", "array_reader", "array_writer", "double_print"]
UB = "signed-integer-overflow,shift,integer-divide-by-zero,float-cast-overflow,bounds,return,unreachable"
IRFLAGS = ["-O0", "-Xclang", "-disable-O0-optnone", "-gline-tables-only", "-emit-llvm", "-c", "-w",
           "-fsanitize=" + UB, "-fsanitize-trap=all", "-fno-vectorize", "-fno-slp-vectorize",
           "-fno-stack-protector", "-U_FORTIFY_SOURCE"]
NATFLAGS = ["-O1", "-g", "-w", "-c", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE",
            "-fsanitize=address," + UB, "-fno-sanitize-recover=all"]
VGFLAGS = ["-O0", "-g", "-w", "-c", "-U_FORTIFY_SOURCE", "-DSX_VALGRIND"]
LINKWRAP = ["-Wl,--wrap=malloc", "-Wl,--wrap=calloc", "-Wl,--wrap=realloc", "-Wl,--wrap=free"]


class BuildError(Exception):
    pass


def sh(cmd, timeout=600, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stderr.decode(errors="replace")[-4000:]))
    return r


def tree_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "src"), os.path.join(VERIF, "rt")):
        for d, ds, fs in sorted(os.walk(base)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".c", ".cc", ".h", ".hpp", ".in")) and not f.endswith("_test.cc"):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    h.update(repr((IRFLAGS, NATFLAGS, VGFLAGS)).encode())
    return h.hexdigest()[:16]


class Library:
    """The real sources of /repo, compiled to bitcode and to native objects."""

    def __init__(self, variant="full"):
        self.variant = variant
        self.dir = os.path.join(OUT, "lib-%s-%s" % (variant, tree_hash()))
        self.inc = None

    def prepare_dirs(self):
        if not os.path.isdir(OUT):
            os.makedirs(OUT)
        olds = sorted([d for d in os.listdir(OUT) if d.startswith("lib-%s-" % self.variant)],
                      key=lambda d: os.path.getmtime(os.path.join(OUT, d)))
        for d in olds[:-12]:
            if os.path.join(OUT, d) != self.dir:
                shutil.rmtree(os.path.join(OUT, d), ignore_errors=True)
        os.makedirs(os.path.join(self.dir, "gen", "geoarrow"), exist_ok=True)
        src = open(os.path.join(REPO, "src/geoarrow/geoarrow_config.h.in")).read()
        full = self.variant == "full"
        for k, v in {"GEOARROW_VERSION_MAJOR": "0", "GEOARROW_VERSION_MINOR": "2", "GEOARROW_VERSION_PATCH": "0",
                     "GEOARROW_VERSION": "0.2.0-SNAPSHOT",
                     "GEOARROW_USE_FAST_FLOAT_DEFINE": "#define GEOARROW_USE_FAST_FLOAT 1" if full else "",
                     "GEOARROW_USE_RYU_DEFINE": "#define GEOARROW_USE_RYU 1" if full else "",
                     "GEOARROW_NAMESPACE_DEFINE": ""}.items():
            src = src.replace("@%s@" % k, v)
        for d in ("gen/geoarrow", "gen"):
            with open(os.path.join(self.dir, d, "geoarrow_config.h"), "w") as f:
                f.write(src)
        self.inc = ["-I" + os.path.join(self.dir, "gen"), "-I" + os.path.join(REPO, "src"),
                    "-I" + os.path.join(REPO, "src/vendor"), "-I" + os.path.join(VERIF, "rt")]
        if not full:
            self.inc.append("-DGEOARROW_BUNDLED_DUMMY=1")

    def sources(self):
        s = [os.path.join(REPO, "src/geoarrow", n + ".c") for n in C_SRC]
        s.append(os.path.join(REPO, "src/vendor/nanoarrow/nanoarrow.c"))
        if self.variant == "full":
            s.append(os.path.join(REPO, "src/geoarrow/double_parse_fast_float.cc"))
            s.append(os.path.join(REPO, "src/geoarrow/ryu/d2s.c"))
        else:
            s.append(os.path.join(REPO, "src/geoarrow/double_parse_std.c"))
        return [x for x in s if os.path.exists(x)]

    def compile(self, kinds=("ir", "nat")):
        self.prepare_dirs()
        jobs = []
        for kind in kinds:
            if os.path.exists(os.path.join(self.dir, kind + ".ok")):
                continue
            for s in self.sources():
                o = os.path.join(self.dir, "%s_%s.%s" % (kind, os.path.basename(s), "bc" if kind == "ir" else "o"))
                jobs.append(self.cc(kind, s, o))
            if kind == "ir":
                jobs.append(self.cc(kind, os.path.join(VERIF, "rt/sx_libc.c"), os.path.join(self.dir, "libc.bc"), ["-fno-builtin"]))
            else:
                jobs.append(self.cc(kind, os.path.join(VERIF, "rt/sx_rt.c"), os.path.join(self.dir, kind + "_rt.o")))
                jobs.append(self.cc(kind, os.path.join(VERIF, "rt/sx_rt_cpp.cc"), os.path.join(self.dir, kind + "_rtcpp.o")))
        with ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(sh, jobs))
        for kind in kinds:
            ok = os.path.join(self.dir, kind + ".ok")
            if os.path.exists(ok):
                continue
            if kind == "ir":
                bcs = [os.path.join(self.dir, "ir_%s.bc" % os.path.basename(s)) for s in self.sources()]
                sh([BIN + "/llvm-link", "-o", os.path.join(self.dir, "lib.bc")] + bcs)
            open(ok, "w").write("ok")

    def cc(self, kind, src, out, extra=()):
        cpp = src.endswith(".cc")
        if kind == "ir":
            c = [BIN + "/clang" + ("++" if cpp else "")] + IRFLAGS
        else:
            c = ["g++" if cpp else "gcc"] + (NATFLAGS if kind == "nat" else VGFLAGS)
        c += ["-std=gnu++17", "-fno-threadsafe-statics"] if cpp else ["-std=gnu11"]
        return c + self.inc + list(extra) + [src, "-o", out]

    def harness_bc(self, src, out, defs):
        raw = out + ".raw.bc"
        # library assertions on: they also make libstdc++ instantiate std::string here instead of in the shared library
        sh(self.cc("ir", src, raw, ["-DSX_SYMBOLIC"] + (["-D_GLIBCXX_ASSERTIONS"] if src.endswith(".cc") else []) + defs))
        linked = out + ".linked.bc"
        libs = [os.path.join(self.dir, "lib.bc"), os.path.join(self.dir, "libc.bc")]
        sh([BIN + "/llvm-link", "-o", linked, raw] + libs)
        sh([BIN + "/opt", "-passes=internalize,globaldce,function(sroa,early-cse),globaldce",
            "-internalize-public-api-list=sx_main", linked, "-o", out])
        os.unlink(raw)
        os.unlink(linked)

    def harness_native(self, src, out, defs, kind="nat"):
        self.compile((kind,))
        obj = out + ".o"
        sh(self.cc(kind, src, obj, (["-D_GLIBCXX_ASSERTIONS"] if src.endswith(".cc") else []) + defs))
        libs = [os.path.join(self.dir, "%s_%s.o" % (kind, os.path.basename(s))) for s in self.sources()]
        rt = [os.path.join(self.dir, kind + "_rt.o")]
        if src.endswith(".cc"):
            rt.append(os.path.join(self.dir, kind + "_rtcpp.o"))
        san = ["-fsanitize=address," + UB] if kind == "nat" else []
        sh(["g++"] + san + LINKWRAP + [obj] + libs + rt + ["-o", out, "-lm"])
        os.unlink(obj)


def write_inputs(path, inputs):
    with open(path, "w") as f:
        for name, hx in inputs:
            f.write("%s %d %s\n" % (name.replace(" ", "_"), len(hx) // 2, hx))


SAN_RE = re.compile(r"(SX-ASSERT-FAILED: .*|ERROR: AddressSanitizer: [\w-]+|runtime error: .*|SX-REPLAY-MISMATCH.*|SX-ASSUME-FALSE|Invalid (?:read|write).*|uninitialised value.*)")


def run_native(exe, infile, obsfile=None, timeout=20, valgrind=False):
    """Returns (status, detail): ok / assume / mismatch / fail / hang."""
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:abort_on_error=0",
               UBSAN_OPTIONS="print_stacktrace=0")
    cmd = [exe, infile] + ([obsfile] if obsfile else [])
    if valgrind:
        cmd = ["valgrind", "-q", "--error-exitcode=99", "--leak-check=no"] + cmd
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        return "hang", "no result within %d s" % timeout
    err = r.stderr.decode(errors="replace")
    m = SAN_RE.search(err)
    det = m.group(1) if m else ("exit status %d" % r.returncode)
    if r.returncode == 0:
        return "ok", ""
    if r.returncode == 77:
        return "assume", det
    if r.returncode == 78:
        return "mismatch", det
    return "fail", det


def setup():
    r = subprocess.run(["bash", os.path.join(VERIF, "setup.sh")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError(r.stdout.decode(errors="replace"))


class Inst:
    """One harness instance: a source file, its -D parameters and its limits."""

    def __init__(self, name, src, defs=None, covers=(), time=100, steps=3000000, thorough=False, jobs=1,
                 lib="full", opts=(), bound=""):
        self.name, self.src, self.defs = name, src, dict(defs or {})
        self.covers, self.time, self.steps, self.thorough = list(covers), time, steps, thorough
        self.jobs, self.lib, self.opts, self.bound = jobs, lib, list(opts), bound

    def dflags(self):
        return ["-D%s=%s" % (k, v) if v is not None else "-D" + k for k, v in self.defs.items()]


def merge(js):
    tot = None
    for j in js:
        if tot is None:
            tot = j
            continue
        for k in ("paths", "cut", "bound_cut", "queries", "z3_queries", "cache_hits", "domain_queries", "unknown", "steps",
                  "forks", "assert_checks", "assume_pruned", "mem_checks", "z3_time", "error_paths", "remaining"):
            tot[k] += j[k]
        tot["max_query"] = max(tot["max_query"], j["max_query"])
        tot["wall"] = max(tot["wall"], j["wall"])
        tot["finished"] = tot["finished"] and j["finished"]
        for k in ("covers", "cut_reasons", "error_counts"):
            for a, b in j[k].items():
                tot[k][a] = tot[k].get(a, 0) + b
        tot["functions"] = sorted(set(tot["functions"]) | set(j["functions"]))
        tot["errors"] += j["errors"]
        tot["samples"] = (tot["samples"] + j["samples"])[:24]
    return tot


def run_symx(inst, bc, out, seed=1, time_scale=1.0):
    cmd = [SYMX, bc, "--time", str(inst.time * time_scale), "--steps", str(inst.steps), "--out", out, "--jobs", str(inst.jobs),
           "--seed", str(seed)] + inst.opts
    for f in [out] + [out + ".%d" % i for i in range(64)]:
        if os.path.exists(f):
            os.unlink(f)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=inst.time * time_scale + 300)
    if r.returncode != 0 or not os.path.exists(out):
        raise BuildError("symx failed on %s: %s" % (inst.name, r.stderr.decode(errors="replace")[-2000:]))
    js = [json.load(open(out))]
    for i in range(64):
        p = out + ".%d" % i
        if os.path.exists(p):
            js.append(json.load(open(p)))
    return merge(js)

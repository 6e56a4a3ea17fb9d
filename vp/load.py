"""Run the extractor over /repo's current sources and load the program."""
import concurrent.futures
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
EXTRACT = os.path.join(BUILD, "extract")
CLANG = "/usr/bin/clang-18" if os.path.exists("/usr/bin/clang-18") else "/usr/bin/clang"


class Broken(Exception):
    """the analysis itself cannot run (error exit, never a verdict)"""


def build_extractor():
    src = os.path.join(VERIF, "tool", "extract.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    stamp = EXTRACT + ".sha"
    if os.path.exists(EXTRACT) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    os.makedirs(BUILD, exist_ok=True)
    tmp = EXTRACT + ".%d" % os.getpid()
    cmd = ["/usr/bin/g++", "-O1", "-std=c++17", "-fno-rtti", "-I/usr/lib/llvm-18/include", "-D_GNU_SOURCE",
           "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", src, "-o", tmp,
           "-L/usr/lib/llvm-18/lib", "-l:libclang-cpp.so.18.1", "-lLLVM-18"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Broken("extractor does not compile:\n" + r.stdout[-2000:])
    os.replace(tmp, EXTRACT)
    open(stamp, "w").write(h)


def compile_flags():
    """{file: flags} from the project's own cmake configuration, with a plain fallback"""
    src = os.path.join(REPO, "src")
    files = {}
    d = tempfile.mkdtemp(prefix="vpcc")
    try:
        r = subprocess.run(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
        cc = os.path.join(d, "compile_commands.json")
        if r.returncode == 0 and os.path.exists(cc):
            for e in json.load(open(cc)):
                f = os.path.normpath(os.path.join(e["directory"], e["file"]))
                if not f.startswith(src + "/"):
                    continue
                flags = []
                toks = e["command"].split() if "command" in e else e["arguments"]
                i = 1
                while i < len(toks):
                    t = toks[i]
                    if t.startswith(("-I", "-D", "-std=", "-U")):
                        flags.append(t)
                    elif t in ("-isystem", "-include"):
                        flags += [t, toks[i + 1]]
                        i += 1
                    i += 1
                files[f] = [x.replace('\\"', '"') for x in flags]
    except Exception:
        files = {}
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if not files:
        for f in sorted(glob.glob(src + "/*.cpp")):
            files[f] = ["-I" + src]
    for f, fl in files.items():
        if not any(x.startswith("-std=") for x in fl):
            fl.append("-std=gnu++17")
        if "-I" + src not in fl:
            fl.append("-I" + src)
    return files


HARNESS = os.path.join(VERIF, "harness")


def src_hash(extra=()):
    h = hashlib.sha256()
    for f in sorted(glob.glob(REPO + "/src/**/*", recursive=True)) + sorted(glob.glob(REPO + "/CMakeLists.txt")) + sorted(extra):
        if os.path.isfile(f):
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    h.update(open(os.path.join(VERIF, "tool", "extract.cpp"), "rb").read())
    h.update(REPO.encode())
    return h.hexdigest()[:24]


class Program:
    def __init__(self):
        self.funcs = {}
        self.recs = {}
        self.globals = {}
        self.units = []
        self.byname = {}

    def find(self, qname):
        return self.byname.get(qname, [])

    def one(self, qname, pred=None):
        c = [f for f in self.find(qname) if pred is None or pred(f)]
        if len(c) != 1:
            raise Broken("anchor %s: %d definitions found (expected one)" % (qname, len(c)))
        return c[0]

    def record(self, n):
        if n not in self.recs:
            raise Broken("anchor class %s not found" % n)
        return self.recs[n]


_flags = None


def flags_once():
    global _flags
    if _flags is None:
        _flags = compile_flags()
        if not _flags:
            raise Broken("no sources found under %s/src" % REPO)
    return _flags


def extract_set(kind, items, extra=()):
    """units of a set of files, cached by content"""
    cache = os.path.join(BUILD, "cache")
    os.makedirs(cache, exist_ok=True)
    out = os.path.join(cache, "%s-%s.json" % (kind, src_hash(extra)))
    if os.path.exists(out):
        try:
            os.utime(out)
            return json.load(open(out))
        except Exception:
            pass
    rd = subprocess.run([CLANG, "-print-resource-dir"], stdout=subprocess.PIPE, text=True).stdout.strip()
    d = tempfile.mkdtemp(prefix="vpx")

    def run(item):
        f, fl = item
        o = os.path.join(d, f.replace("/", "_") + ".json")
        r = subprocess.run([EXTRACT, o, REPO + "/src", f, "--", "-resource-dir", rd] + fl,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if not os.path.exists(o) or r.returncode:
            raise Broken("cannot parse %s:\n%s" % (f, r.stdout[-1500:]))
        return json.load(open(o))

    try:
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            units = list(ex.map(run, sorted(items().items())))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    tmp = out + ".%d" % os.getpid()
    json.dump(units, open(tmp, "w"))
    os.replace(tmp, out)
    # keep the cache small
    old = sorted((os.path.getmtime(p), p) for p in glob.glob(cache + "/%s-*.json" % kind))
    for _, p in old[:-6]:
        try:
            os.unlink(p)
        except OSError:
            pass
    return units


def extract_all(harness=()):
    build_extractor()
    units = list(extract_set("src", flags_once))
    for h in harness:
        f = os.path.join(HARNESS, h + ".cpp")
        if not os.path.exists(f):
            raise Broken("harness %s is missing" % f)

        def items(f=f):
            fl = sorted(flags_once().items())[0][1]
            return {f: list(fl) + ["-I" + HARNESS]}
        units += extract_set("h_" + h, items, [f] + glob.glob(HARNESS + "/*.h"))
    return units


def _index(o, unit, ctr):
    """number every node (deterministic) for use as allocation-site / loop identity"""
    st = [o]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if "k" in x or "ps" in x or "id" in x:
                ctr[0] += 1
                x["_"] = ctr[0]
            for v in x.values():
                if isinstance(v, (dict, list)):
                    st.append(v)
        else:
            for v in x:
                if isinstance(v, (dict, list)):
                    st.append(v)


def load(harness=()):
    sys.setrecursionlimit(20000)
    P = Program()
    ctr = [0]
    for u in extract_all(harness):
        P.units.append(u["file"])
        for k, f in u["funcs"].items():
            if k in P.funcs:
                continue
            _index(f, u["file"], ctr)
            f["unit"] = u["file"]
            P.funcs[k] = f
        for k, r in u["recs"].items():
            P.recs.setdefault(k, r)
        for k, g in u["globals"].items():
            g["unit"] = u["file"]
            if k not in P.globals or ("init" in g and "init" not in P.globals[k]):
                _index(g, u["file"], ctr)
                P.globals[k] = g
    for f in P.funcs.values():
        P.byname.setdefault(f["n"], []).append(f)
    return P

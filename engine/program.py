"""Extracts (or loads from cache) the resolved program of the repository."""
import hashlib, json, os, subprocess, sys, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
EXTRACTOR_SRC = os.path.join(VERIF, "tools", "extract.cpp")


class AnalysisError(Exception):
    """The analysis itself could not give an answer (not a violation)."""


def sh(path):
    h = hashlib.sha256()
    with open(path, "rb") as f:
        h.update(f.read())
    return h.hexdigest()


def build_extractor():
    os.makedirs(CACHE, exist_ok=True)
    key = sh(EXTRACTOR_SRC)[:16]
    exe = os.path.join(CACHE, "extract-" + key)
    if os.path.exists(exe):
        return exe
    tmp = exe + ".tmp%d" % os.getpid()
    cmd = ["g++", "-O0", "-std=c++17", "-fno-rtti", "-I/usr/lib/llvm-18/include", "-D_GNU_SOURCE",
           "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS",
           EXTRACTOR_SRC, "-o", tmp, "-L/usr/lib/llvm-18/lib", "-l:libclang-cpp.so.18.1", "-lLLVM-18"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisError("extractor does not build:\n" + r.stderr[-3000:])
    os.replace(tmp, exe)
    return exe


def sources(repo=None):
    repo = repo or REPO
    root = os.path.join(repo, "src")
    out = []
    for d, _, fs in os.walk(root):
        for f in sorted(fs):
            if not f.endswith((".cpp", ".cc", ".cxx", ".c")):
                continue
            low = f.lower()
            if "test" in low or "benchmark" in low:
                continue
            out.append(os.path.join(d, f))
    return sorted(out)


def tree_hash(repo=None):
    repo = repo or REPO
    h = hashlib.sha256()
    root = os.path.join(repo, "src")
    for d, ds, fs in sorted(os.walk(root)):
        ds.sort()
        for f in sorted(fs):
            if f.endswith((".cpp", ".h", ".hpp", ".cc", ".inc", ".def", ".hh", ".cxx", ".c", ".ipp")):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
                h.update(b"\0")
    h.update(sh(EXTRACTOR_SRC).encode())
    return h.hexdigest()[:24]


def flags(repo):
    s = os.path.join(repo, "src")
    return ["-std=c++17", "-w", "-I/usr/include/json-c", "-I" + s, "-I" + s + "/Engine", "-I" + s + "/Engine/Gramambular",
            "-I" + s + "/Engine/Mandarin", "-I" + s + "/ChineseNumbers", "-I" + s + "/Engine/gramambular2",
            "-isystem", "/usr/include/Fcitx5/Utils", "-isystem", "/usr/include/Fcitx5/Core",
            "-isystem", "/usr/include/Fcitx5/Config", "-I/usr/include/Fcitx5/Module/fcitx-module/notifications",
            "-DFMT_SHARED", "-DFCITX_GETTEXT_DOMAIN=\"fcitx5-mcbopomofo\"",
            "-resource-dir=/usr/lib/llvm-18/lib/clang/18"]


def extract(repo=None):
    repo = repo or REPO
    key = tree_hash(repo)
    d = os.path.join(CACHE, "facts-" + key)
    if os.path.exists(os.path.join(d, "done")):
        return d
    exe = build_extractor()
    os.makedirs(CACHE, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="facts-", dir=CACHE)
    root = os.path.join(repo, "src") + "/"

    def one(src):
        rel = os.path.relpath(src, root)
        out = os.path.join(tmp, rel.replace("/", "__") + ".json")
        r = subprocess.run([exe, root, out, src, "--"] + flags(repo), capture_output=True, text=True)
        if r.returncode != 0 or not os.path.exists(out):
            return "%s: %s" % (rel, r.stderr[-2000:])
        return None
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        errs = [e for e in ex.map(one, sources(repo)) if e]
    if errs:
        shutil.rmtree(tmp, ignore_errors=True)
        raise AnalysisError("source does not type-check:\n" + "\n".join(errs))
    open(os.path.join(tmp, "done"), "w").close()
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    # Keep the cache small.
    olds = sorted((os.path.getmtime(os.path.join(CACHE, x)), x) for x in os.listdir(CACHE)
                  if x.startswith("facts-") and os.path.join(CACHE, x) != d)
    for _, x in olds[:-12]:
        shutil.rmtree(os.path.join(CACHE, x), ignore_errors=True)
    return d


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        d = extract(self.repo)
        self.functions = {}   # key -> fn
        self.by_q = {}        # qualified name -> [fn]
        self.records = {}     # qualified name -> rec
        self.enums = {}
        self.globals = {}
        self.units = []
        for f in sorted(os.listdir(d)):
            if not f.endswith(".json"):
                continue
            with open(os.path.join(d, f)) as fh:
                u = json.load(fh)
            self.units.append(u["tu"])
            types = u["types"]
            self._fix(u["functions"], types)
            self._fix(u["records"], types)
            self._fix(u["globals"], types)
            for fn in u["functions"]:
                # internal-linkage functions are per TU
                k = fn["key"]
                if k not in self.functions:
                    self.functions[k] = fn
                    self.by_q.setdefault(fn["q"], []).append(fn)
            for r in u["records"]:
                self.records.setdefault(r["q"], r)
            for e in u["enums"]:
                self.enums.setdefault(e["q"], e)
            for g in u["globals"]:
                old = self.globals.get(g["d"])
                if old is None or ("init" not in old and "init" in g):
                    self.globals[g["d"]] = g
        self._over = None

    def _fix(self, o, types):
        # Replace type indices by strings, in place, iteratively.
        st = [o]
        while st:
            x = st.pop()
            if isinstance(x, dict):
                for k in ("t", "dt", "rt", "at", "ct", "ft", "base"):
                    v = x.get(k)
                    if isinstance(v, int) and not isinstance(v, bool):
                        x[k] = types[v] if v >= 0 else ""
                if "pt" in x:
                    x["pt"] = [types[i] if isinstance(i, int) and i >= 0 else i for i in x["pt"]]
                for k, v in x.items():
                    if isinstance(v, (dict, list)) and k != "pt":
                        st.append(v)
            elif isinstance(x, list):
                for v in x:
                    if isinstance(v, (dict, list)):
                        st.append(v)

    def fn(self, q, nparams=None, required=True):
        c = self.by_q.get(q, [])
        if nparams is not None:
            c = [f for f in c if len(f["params"]) == nparams]
        if not c:
            if required:
                raise AnalysisError("anchor vanished: function %s" % q)
            return None
        return c[0]

    def fns(self, q):
        return self.by_q.get(q, [])

    def overriders(self, u):
        if self._over is None:
            self._over = {}
            for f in self.functions.values():
                for o in f.get("over", []):
                    self._over.setdefault(o, []).append(f)
        return self._over.get(u, [])

    def bases_of(self, q, acc=None):
        acc = acc if acc is not None else []
        r = self.records.get(q)
        if r:
            for b in r["bases"]:
                if b not in acc:
                    acc.append(b)
                    self.bases_of(b, acc)
        return acc

    def derives(self, q, base):
        return q == base or base in self.bases_of(q)

    def subclasses(self, base):
        return sorted(q for q in self.records if self.derives(q, base))


def walk(node):
    """All dict nodes below (and including) node."""
    st = [node]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            for k, v in x.items():
                if isinstance(v, (dict, list)) and k != "fn":
                    st.append(v)
        elif isinstance(x, list):
            for v in x:
                if isinstance(v, (dict, list)):
                    st.append(v)


if __name__ == "__main__":
    t = time.time()
    p = Program()
    print(len(p.functions), "functions", len(p.records), "records", time.time() - t)
    if len(sys.argv) > 1:
        for q in sorted(p.by_q):
            if sys.argv[1] in q:
                print(q, [f["l"] for f in p.by_q[q]])

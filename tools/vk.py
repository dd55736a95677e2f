#!/usr/bin/env python3
"""Driver of the contract verifier: builds the verifier, lowers /repo's current sources, discharges the
obligations of the contracts of one property, replays counterexamples on the native build, writes evidence."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VK_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
JOBS = int(os.environ.get("VK_JOBS", os.cpu_count() or 8))
Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
CXX = "clang++-18"
T0 = time.time()
INC = ["-I" + REPO + "/src", "-I" + REPO + "/include", "-isystem", "/usr/include/utf8cpp"]
BASE = ["-DFMT_HEADER_ONLY", "-std=gnu++17", "-fconstexpr-steps=100000000", "-fno-rtti", "-fno-access-control", "-w"]
LOWER = BASE + ["-g1", "-O1", "-Xclang", "-disable-llvm-passes", "-emit-llvm", "-include", VERIF + "/contracts/vk_lower.h", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
UBTRAP = ["-fsanitize=signed-integer-overflow,shift-exponent,integer-divide-by-zero,float-cast-overflow,return,unreachable", "-fsanitize-trap=all"]
NATIVE = BASE + ["-g1", "-O1", "-DVK_NATIVE", "-fsanitize=address,undefined", "-fno-sanitize=vptr,function,alignment", "-fno-sanitize-recover=undefined"]
# sources the front end cannot compile stand-alone or that belong to the command line tool
SKIP = {"run/main.cpp"}
GROUPS = {"core": ("vm/", "common/", "bytecode/"), "all": ("vm/", "common/", "bytecode/", "compiler/", "api/"), "api": ("vm/", "common/", "bytecode/", "api/"), "common": ("common/",), "bytecode": ("common/", "bytecode/"),
          "compiler": ("common/", "bytecode/", "compiler/")}


def log(*a):
    print("[vk %6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def hfiles(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()[:24]


def walk(d, exts):
    r = []
    for root, _, fs in os.walk(d):
        for f in fs:
            if f.endswith(exts):
                r.append(os.path.join(root, f))
    return sorted(r)


def build_engine():
    ed = os.path.join(VERIF, "engine")
    files = [os.path.join(ed, f) for f in os.listdir(ed)]
    key = hfiles(files)
    out = os.path.join(CACHE, "engine-" + key)
    if os.path.exists(out + "/ok"):
        return out
    os.makedirs(out, exist_ok=True)
    cfl = ["-O2", "-std=c++17", "-w", "-I/usr/lib/llvm-18/include", "-I" + Z3 + "/include"]
    jobs = [("expr", "expr.cpp"), ("solver", "solver.cpp"), ("sat", "sat.cpp"), ("linear", "linear.cpp"), ("engine", "engine.cpp"), ("prep", "prep.cpp")]
    with ThreadPoolExecutor(5) as ex:
        rs = list(ex.map(lambda j: sh([CXX] + cfl + ["-c", os.path.join(ed, j[1]), "-o", out + "/" + j[0] + ".o"]), jobs))
    for r in rs:
        if r.returncode:
            print(r.stdout)
            raise SystemExit("engine build failed")
    lib = ["-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-Wl,-rpath,/usr/lib/llvm-18/lib"]
    z3 = ["-L" + Z3 + "/lib", "-lz3", "-Wl,-rpath," + Z3 + "/lib", "-lpthread"]
    r1 = sh([CXX, out + "/expr.o", out + "/solver.o", out + "/sat.o", out + "/linear.o", out + "/engine.o", "-o", out + "/vkengine"] + lib + z3)
    r2 = sh([CXX, out + "/prep.o", "-o", out + "/vkprep"] + lib)
    if r1.returncode or r2.returncode:
        print(r1.stdout, r2.stdout)
        raise SystemExit("engine link failed")
    open(out + "/ok", "w").close()
    return out


_hdr = None


def header_key():
    global _hdr
    if _hdr is None:
        _hdr = hfiles(walk(REPO + "/src", (".hpp", ".h", ".ipp", ".inc")) + walk(REPO + "/include", (".h", ".hpp")), " ".join(LOWER + UBTRAP))
    return _hdr


def gen_include():
    d = os.path.join(CACHE, "gen", "tiro")
    os.makedirs(d, exist_ok=True)
    tmpl = walk(REPO + "/include", (".in",))
    src = None
    for t in tmpl + walk(REPO + "/src", (".in",)):
        if os.path.basename(t).startswith("version.h"):
            src = t
    txt = open(src).read() if src else ""
    txt = re.sub(r"@PROJECT_VERSION_(MAJOR|MINOR|PATCH)@|\$\{PROJECT_VERSION_(MAJOR|MINOR|PATCH)\}", "0", txt)
    txt = re.sub(r"@[A-Za-z_]+@|\$\{[A-Za-z_]+\}", "0", txt)
    p = os.path.join(d, "version.h")
    if not os.path.exists(p) or open(p).read() != txt:
        open(p, "w").write(txt)
    return os.path.join(CACHE, "gen")


_lock = threading.Lock()
_inflight = {}


def once(path, fn):
    """run fn() to create path, once, also across threads; returns '' or an error text"""
    with _lock:
        ev = _inflight.get(path)
        if ev is None:
            ev = _inflight[path] = [threading.Lock(), None]
    with ev[0]:
        if os.path.exists(path):
            return ""
        if ev[1] is None:
            ev[1] = fn() or ""
        return ev[1]


def overlay(src):
    """compiler/ir/terminator.cpp formats a BlockId, which clang rejects because fmt::formatter<...>::format is not const in
    common/format.hpp (g++ accepts it): that file alone is compiled with a copy of the header, made on every run, that has the `const`."""
    if not src.endswith("/compiler/ir/terminator.cpp"):
        return []
    d = os.path.join(CACHE, "overlay-" + header_key()[:16])
    f = os.path.join(d, "common", "format.hpp")

    def go():
        os.makedirs(os.path.dirname(f), exist_ok=True)
        t = open(os.path.join(REPO, "src", "common", "format.hpp")).read()
        t = t.replace("auto format(const T& value, FormatContext& ctx) {", "auto format(const T& value, FormatContext& ctx) const {")
        open(f + ".tmp", "w").write(t)
        os.replace(f + ".tmp", f)
    once(f, go)
    return ["-I" + d]


def compile_one(src, kind):
    """kind: bc or native; returns (path, error)"""
    flags = {"bc": LOWER + UBTRAP, "nat": NATIVE, "cbc": LOWER, "cnat": NATIVE, "cnbc": LOWER + ["-DVK_NATIVE"]}[kind]
    key = hashlib.sha256((header_key() + hfiles([src], " ".join(flags)) + (contracts_key() if kind[0] == "c" else "")).encode()).hexdigest()[:24]
    out = os.path.join(CACHE, "obj", os.path.basename(src) + "-" + kind + "-" + key + (".bc" if kind.endswith("bc") else ".o"))

    def go():
        tmp = out + ".tmp%d" % os.getpid()
        r = sh([CXX] + flags + overlay(src) + INC + ["-I" + gen_include(), "-I" + VERIF + "/contracts", "-c", src, "-o", tmp])
        if r.returncode:
            return r.stdout[-4000:] or "compiler failed"
        os.replace(tmp, out)
    return out, once(out, go)


_ck = None


def contracts_key():
    global _ck
    if _ck is None:
        _ck = hfiles(walk(VERIF + "/contracts", (".h", ".hpp")))
    return _ck


def repo_sources(groups):
    pre = tuple(p for g in groups for p in GROUPS[g])
    r = []
    for f in walk(REPO + "/src", (".cpp",)):
        rel = os.path.relpath(f, REPO + "/src")
        if rel in SKIP or not rel.startswith(pre):
            continue
        r.append(f)
    return r


class CFile:
    def __init__(self, path):
        self.path = path
        self.name = os.path.basename(path)[:-4]
        txt = open(path).read()
        m = re.search(r"^// vk-link: (.*)$", txt, re.M)
        self.groups = m.group(1).split() if m else ["core"]
        # "// vk-native: contracts": replay against the real code with the callee contracts of the file in place
        # "// vk-deep: ID...": contracts that are only checked in the thorough tier
        self.deep = set(w for l in re.findall(r"^// vk-deep: (.*)$", txt, re.M) for w in l.split())
        self.native_contracts = bool(re.search(r"^// vk-native: contracts", txt, re.M))
        self.opts = {}
        for m in re.finditer(r"^// vk-opts: (\S+) (.*)$", txt, re.M):
            self.opts[m.group(1)] = m.group(2).split()
        self.props = {q for m in re.findall(r'"((?:P\d\d)(?:,P\d\d)*)"', txt) for q in m.split(",")}


def contract_files():
    return [CFile(f) for f in walk(VERIF + "/contracts", (".cpp",)) if os.path.basename(f).startswith("c_")]


def meta_of(bc):
    """contracts declared in a bitcode file: id -> (property, kind, target, text)"""
    r = sh(["llvm-dis-18", "-o", "-", bc])
    res = {}
    for m in re.finditer(r'^@vk_meta_(\w+) = .*? c"(.*?)"', r.stdout, re.M):
        s = re.sub(r"\\([0-9A-F]{2})", lambda k: chr(int(k.group(1), 16)), m.group(2)).rstrip("\0")
        res[m.group(1)] = s.split("\x1f")
    return res


def prepare(cf, engine):
    """compile + link + apply contracts; returns (prepared bc, contract metas, log, error)"""
    srcs = repo_sources(cf.groups)
    with ThreadPoolExecutor(JOBS) as ex:
        f1 = ex.submit(compile_one, cf.path, "cbc")
        f2 = ex.submit(compile_one, VERIF + "/contracts/vk_rt.cpp", "cbc")
        objs = list(ex.map(lambda s: compile_one(s, "bc"), srcs))
    bad = [(s, e) for s, (o, e) in zip(srcs, objs) if e]
    cbc, cerr = f1.result()
    rbc, rerr = f2.result()
    if cerr:
        return None, {}, "", "contract file %s does not compile against the current sources:\n%s" % (cf.name, cerr)
    if rerr:
        return None, {}, "", rerr
    note = ""
    if bad:
        note = "not lowered: " + ", ".join(os.path.relpath(s, REPO) for s, _ in bad)
        log(note, bad[0][1][-600:])
    ins = [cbc] + [o for o, e in objs if not e] + [rbc]
    key = hfiles(ins, engine)
    out = os.path.join(CACHE, "obj", cf.name + "-prep-" + key + ".bc")

    def go():
        r = sh([engine + "/vkprep"] + ins + ["-o", out + ".tmp"])
        if r.returncode:
            return "prep failed: " + r.stdout[-3000:]
        open(out + ".log", "w").write(r.stdout)
        os.replace(out + ".tmp", out)
    err = once(out, go)
    if err:
        return None, {}, "", err
    return out, meta_of(cbc), open(out + ".log").read(), ""


def run_contract(engine, bc, cid, opts, budget, workdir):
    out = os.path.join(workdir, cid + ".json")
    t = time.time()
    cmd = [engine + "/vkengine", "--bc", bc, "--contract", "vk_contract_" + cid, "--out", out, "--time", str(int(max(5, budget)))] + opts
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=budget + 60,
                           preexec_fn=lambda: __import__("resource").setrlimit(__import__("resource").RLIMIT_AS, (12 << 30, 12 << 30)))
        err = r.stderr[-2000:]
        rc = r.returncode
    except subprocess.TimeoutExpired:
        return {"crash": "time", "seconds": time.time() - t}
    if not os.path.exists(out):
        return {"crash": "engine exit %d: %s" % (rc, err[-800:]), "seconds": time.time() - t}
    try:
        return json.load(open(out))
    except Exception as e:
        return {"crash": "bad result file: %s" % e, "seconds": time.time() - t}


def native_binary_contracts(cf):
    """native build of the lowered code in which the declared callee contracts replace the callees"""
    engine = build_engine()
    srcs = repo_sources(cf.groups)
    with ThreadPoolExecutor(JOBS) as ex:
        f1 = ex.submit(compile_one, cf.path, "cnbc")
        f2 = ex.submit(compile_one, VERIF + "/contracts/vk_rt.cpp", "cbc")
        f3 = ex.submit(compile_one, VERIF + "/contracts/vk_native.cpp", "cnat")
        objs = list(ex.map(lambda s: compile_one(s, "bc"), srcs))
    errs = [e for o, e in [f1.result(), f2.result(), f3.result()] if e]
    if errs:
        return None, errs[0]
    ins = [f1.result()[0]] + [o for o, e in objs if not e] + [f2.result()[0]]
    out = os.path.join(CACHE, "obj", cf.name + "-nativec-" + hfiles(ins + [f3.result()[0]], engine))

    def go():
        t = out + ".tmp%d" % os.getpid()
        r = sh([engine + "/vkprep"] + ins + ["-o", t + ".bc"])
        if r.returncode == 0:
            r = sh([CXX, "-O1", "-w", "-c", t + ".bc", "-o", t + ".o"])
        if r.returncode == 0:
            r = sh([CXX, "-fsanitize=address,undefined", "-rdynamic", t + ".o", f3.result()[0], "-o", t, "-ldl", "-Wl,--unresolved-symbols=ignore-all"]
                   + ["-l" + l for l in ("absl_raw_hash_set", "absl_hash", "absl_city", "absl_low_level_hash", "absl_base", "absl_int128", "absl_throw_delegate")])
        if r.returncode:
            return "native link failed: " + r.stdout[-3000:]
        os.replace(t, out)
        os.remove(t + ".bc"); os.remove(t + ".o")
    err = once(out, go)
    return (None, err) if err else (out, "")


def native_binary(cf):
    if cf.native_contracts:
        return native_binary_contracts(cf)
    srcs = [s for s in repo_sources(cf.groups) if not s.endswith("common/assert.cpp")]
    with ThreadPoolExecutor(JOBS) as ex:
        f1 = ex.submit(compile_one, cf.path, "cnat")
        f2 = ex.submit(compile_one, VERIF + "/contracts/vk_native.cpp", "cnat")
        objs = list(ex.map(lambda s: compile_one(s, "nat"), srcs))
    if "compiler" in cf.groups or "all" in cf.groups:
        pass
    ins = [f1.result()[0], f2.result()[0]] + [o for o, e in objs]
    errs = [e for o, e in [f1.result(), f2.result()] + objs if e]
    if errs:
        return None, errs[0]
    key = hfiles(ins)
    out = os.path.join(CACHE, "obj", cf.name + "-native-" + key)

    def go():
        r = sh([CXX, "-fsanitize=address,undefined", "-rdynamic"] + ins + ["-o", out + ".tmp", "-ldl", "-Wl,--unresolved-symbols=ignore-all"]
               + ["-l" + l for l in ("absl_raw_hash_set", "absl_hash", "absl_city", "absl_low_level_hash", "absl_base", "absl_int128", "absl_throw_delegate")])
        if r.returncode:
            return "native link failed: " + r.stdout[-3000:]
        os.replace(out + ".tmp", out)
    err = once(out, go)
    return (None, err) if err else (out, "")


NENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99", UBSAN_OPTIONS="halt_on_error=1:exitcode=99:print_stacktrace=1")


def replay_file(binary, cid, inputs_path):
    try:
        r = subprocess.run([binary, "replay", cid, inputs_path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=NENV, timeout=120)
    except subprocess.TimeoutExpired:
        return True, "no termination within 120 s", -1
    rc = r.returncode
    return rc not in (0, 77, 3), r.stdout[-6000:], rc


def write_inputs(rep, path):
    with open(path, "w") as f:
        for n, w, v in rep.get("inputs", []):
            f.write("%s\x1f%d\x1f%s\n" % (n, w, v))
        for line in rep.get("arrays", "").strip().split("\n"):
            p = line.split(" ")
            if len(p) >= 5 and p[0] == "array":
                f.write("@%s\x1f%s\x1f%s\n" % (p[1], p[4], ",".join(x.replace(":", "=") for x in p[5:] if ":" in x)))


def native_search(binary, cid, secs, seed, workdir, jobs):
    procs = []
    for j in range(jobs):
        lf = os.path.join(workdir, "search-%s-%d" % (cid, j))
        procs.append((lf, subprocess.Popen([binary, "search", cid, str(secs), str(seed * 100 + j), lf], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", env=NENV)))
    hit, stats = None, []
    for lf, p in procs:
        try:
            o, _ = p.communicate(timeout=secs + 60)
        except subprocess.TimeoutExpired:
            p.kill(); o = ""
        if p.returncode == 1 and os.path.exists(lf) and hit is None:
            hit = lf
        stats.append(o.strip().split("\n")[-1])
    return hit, "; ".join(s for s in stats if s)


def check(prop, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    total = 800 if tier == "quick" else 3000
    soft = 560 if tier == "quick" else 2400
    os.makedirs(CACHE + "/obj", exist_ok=True)
    os.makedirs(VERIF + "/evidence/replays", exist_ok=True)
    work = tempfile.mkdtemp(prefix="vk-")
    viol, known = [], []
    try:
        engine = build_engine()
        log("engine ready")
        files = [c for c in contract_files() if prop in c.props]
        if not files:
            print("no contracts for", prop)
            return 1
        prepared = {}
        # lower sources once with all cores, then link each contract file in parallel
        gs = sorted({g for c in files for g in c.groups})
        srcs = repo_sources(gs)
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(lambda s: compile_one(s, "bc"), srcs))
        log("lowered %d sources" % len(srcs))
        with ThreadPoolExecutor(JOBS) as ex:
            for c, r in zip(files, ex.map(lambda c: prepare(c, engine), files)):
                prepared[c.name] = r
        tasks, problems = [], []
        for c in files:
            bc, meta, plog, err = prepared[c.name]
            if err:
                problems.append((c, err))
                continue
            for cid, m in meta.items():
                if prop in m[0].split(",") and (tier == "thorough" or cid not in c.deep):
                    o = c.opts.get("*", []) + c.opts.get(cid, [])
                    if tier == "thorough":
                        o = o + c.opts.get("thorough:" + cid, [])
                    tasks.append((c, cid, m, bc, plog, o))
        log("%d contracts to discharge" % len(tasks))
        results = {}

        def one(t):
            c, cid, m, bc, plog, o = t
            left = soft - (time.time() - T0)
            per = min(left, 300 if tier == "quick" else 1500)
            if per < 5:
                return cid, {"crash": "time", "seconds": 0}
            r = run_contract(engine, bc, cid, o, per, work)
            log("%-34s %s obligations=%s failed=%s unknown=%s paths=%s %.1fs %s" % (cid, "CRASH " + r["crash"][:200] if "crash" in r else "", r.get("discharged"), r.get("failed"), r.get("unknown"), r.get("paths"), r.get("seconds", 0), list(r.get("incomplete", {}).items())[:2]))
            return cid, r
        # longest contracts first
        exp = {}
        try:
            exp = json.load(open(VERIF + "/tools/times.json"))
        except Exception:
            pass
        tasks.sort(key=lambda t: -exp.get(t[1], 5))
        with ThreadPoolExecutor(JOBS) as ex:
            for cid, r in ex.map(one, tasks):
                results[cid] = r
        if os.environ.get("VK_TIMES"):
            exp.update({k: round(v.get("seconds", 0), 1) for k, v in results.items()})
            json.dump(exp, open(VERIF + "/tools/times.json", "w"), indent=0, sort_keys=True)

        # ---------------------------------------------------------------- judge
        proofs = bounded = 0
        ob_total = ob_done = b_total = b_done = 0
        undecided, samples = [], []
        functions, externals, assumptions, loops = set(), set(), set(), []
        solver_s = queries = 0
        per_contract = []
        binaries = {}

        def binary_for(c):
            if c.name not in binaries:
                log("building the native replay for", c.name)
                binaries[c.name] = native_binary(c)
                if binaries[c.name][1]:
                    log(binaries[c.name][1][-500:])
            return binaries[c.name][0]

        for c, err in problems:
            p = VERIF + "/evidence/replays/%s-%s.json" % (prop, c.name)
            json.dump({"property": prop, "contract_file": c.name, "failed_obligation": "all contracts of " + c.name, "verifier_output": err}, open(p, "w"), indent=1)
            viol.append((p, True, "contracts of %s cannot be applied to the current code" % c.name))
        for c, cid, m, bc, plog, o in tasks:
            r = results[cid]
            kind = m[1]
            is_proof = kind.startswith("proof")
            functions.update(f for f in r.get("functions", []) if not f.startswith(("std::", "vk", "absl::", "__gnu", "operator", "fmt::")))
            externals.update(r.get("externals", []))
            for l in plog.split("\n"):
                if l.startswith("replaced"):
                    assumptions.add(re.sub(r"\(.*?\) by contract", " by contract", l)[:160])
            solver_s += r.get("solver_seconds", 0); queries += r.get("solver_queries", 0)
            loops += r.get("loops", [])
            chk, dis = r.get("checked", 0), r.get("discharged", 0)
            reasons = dict(r.get("incomplete", {}))
            if "crash" in r:
                reasons[r["crash"]] = 1
            if r.get("unknown"):
                reasons["solver gave no answer"] = r["unknown"]
            # vacuity: every cover label written in the contract must have been reached
            missing = []
            if not r.get("failed") and not reasons:
                if not r.get("obligations"):
                    missing.append("no obligation was generated")
                for lab in cover_labels(c.path, cid):
                    if not r.get("covers", {}).get(lab):
                        missing.append(lab)
            reps = r.get("reports", [])
            fails = [x for x in reps]
            status = "discharged"
            if fails:
                status = "failed"
                done = False
                b = binary_for(c)
                tried = set()
                for k, rep in enumerate(fails[:12]):
                    if done:
                        break
                    ip = VERIF + "/evidence/replays/%s-%s.inputs" % (prop, cid)
                    write_inputs(rep, ip)
                    if b:
                        ok, outp, rc = replay_file(b, cid, ip)
                        if ok:
                            p = VERIF + "/evidence/replays/%s-%s.json" % (prop, cid)
                            json.dump({"property": prop, "contract": cid, "text": m[3], "functions": m[2], "failed_obligation": rep["label"], "verifier": rep, "native_replay": {"command": "tools/vk.py replay %s %s" % (cid, ip), "exit": rc, "output": outp}}, open(p, "w"), indent=1)
                            viol.append((p, False, "%s: %s" % (cid, rep["label"]))); done = True
                if not done and b:
                    hit, stats = native_search(b, cid, 15, seed, work, JOBS)
                    if hit:
                        ip = VERIF + "/evidence/replays/%s-%s.inputs" % (prop, cid)
                        shutil.copy(hit, ip)
                        ok, outp, rc = replay_file(b, cid, ip)
                        p = VERIF + "/evidence/replays/%s-%s.json" % (prop, cid)
                        json.dump({"property": prop, "contract": cid, "text": m[3], "functions": m[2], "failed_obligation": fails[0]["label"], "verifier": fails[0], "native_search": stats, "native_replay": {"command": "tools/vk.py replay %s %s" % (cid, ip), "exit": rc, "output": outp}}, open(p, "w"), indent=1)
                        viol.append((p, False, "%s: %s" % (cid, fails[0]["label"]))); done = True
                if not done:
                    p = VERIF + "/evidence/replays/%s-%s.json" % (prop, cid)
                    json.dump({"property": prop, "contract": cid, "text": m[3], "functions": m[2], "failed_obligation": fails[0]["label"], "verifier": fails}, open(p, "w"), indent=1)
                    viol.append((p, True, "%s: %s" % (cid, fails[0]["label"])))
            elif reasons or missing:
                status = "undecided"
                b = binary_for(c)
                hit, stats = (None, "no native build")
                if b:
                    hit, stats = native_search(b, cid, 20 if tier == "quick" else 120, seed, work, JOBS)
                if hit:
                    ip = VERIF + "/evidence/replays/%s-%s.inputs" % (prop, cid)
                    shutil.copy(hit, ip)
                    ok, outp, rc = replay_file(b, cid, ip)
                    p = VERIF + "/evidence/replays/%s-%s.json" % (prop, cid)
                    json.dump({"property": prop, "contract": cid, "text": m[3], "functions": m[2], "failed_obligation": "contract " + cid, "verifier": reasons, "native_search": stats, "native_replay": {"command": "tools/vk.py replay %s %s" % (cid, ip), "exit": rc, "output": outp}}, open(p, "w"), indent=1)
                    viol.append((p, False, "%s (found by the bounded stand-in)" % cid)); status = "failed"
                else:
                    hard = [x for x in list(reasons) if not re.search(r"time|solver gave no answer|path", x)] + missing
                    if hard and is_proof:
                        p = VERIF + "/evidence/replays/%s-%s.json" % (prop, cid)
                        json.dump({"property": prop, "contract": cid, "text": m[3], "functions": m[2], "failed_obligation": "the proof of %s can no longer be carried out" % cid, "verifier": {"incomplete": reasons, "not reached": missing}, "native_search": stats}, open(p, "w"), indent=1)
                        viol.append((p, True, "%s: %s" % (cid, hard[0])))
                    undecided.append({"contract": cid, "reasons": {str(k): v for k, v in reasons.items()}, "not_reached": missing, "bounded_stand_in": stats})
            if is_proof:
                proofs += 1
                ob_total += chk + (1 if status == "undecided" else 0)
                ob_done += dis
            else:
                bounded += 1
                b_total += chk; b_done += dis
            per_contract.append({"contract": cid, "functions": m[2], "states": m[3], "kind": kind, "status": status, "obligations": len(r.get("obligations", {})), "checked": chk, "discharged": dis, "by_simplification": r.get("by_simplification", 0),
                                 "paths": r.get("paths"), "seconds": round(r.get("seconds", 0), 1), "solver_seconds": round(r.get("solver_seconds", 0), 1), "labels": sorted(r.get("obligations", {}))[:40]})
        for p in per_contract[:6]:
            samples.append("%s [%s]: %s -> %s, %d obligations discharged on %s paths" % (p["contract"], p["functions"], p["states"], p["status"], p["discharged"], p["paths"]))
        for u in undecided[:4]:
            samples.append("undecided: %s %s" % (u["contract"], json.dumps(u["reasons"])[:200]))
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": level_of(prop),
            "coverage": {
                "explanation": "contracts of kind proof hold for all inputs; contracts of kind bounded are discharged for every input within the bound stated with each of them and are not counted under obligations/discharged",
                "obligations": ob_total, "discharged": ob_done, "bounded_obligations": b_total, "bounded_discharged": b_done,
                "checker_cmd": "python3 tools/vk.py check %s --tier %s" % (prop, tier),
                "trusted_base": ["clang 18 front end and LLVM scalar passes (lowering of /repo's current C++ to the verified form)", "engine/ (obligation generator, memory model)", "engine/sat.cpp (CDCL solver, sat answers checked by evaluation), z3, cvc5 (solvers)"] + sorted(assumptions),
                "functions_under_contract": sorted({t[2][2] for t in tasks}),
                "repo_functions_executed": sorted(f for f in functions if f.startswith("tiro"))[:400],
                "contracts": per_contract, "contracts_proof": proofs, "contracts_bounded": bounded,
                "solver_queries": queries, "solver_seconds": round(solver_s, 1),
                "loop_contracts": loops[:60], "undecided": undecided, "external_models_used": sorted(externals)[:80],
                "samples": samples,
            },
            "wall_s": round(time.time() - T0, 1),
            "assumptions": sorted(assumptions),
            "violations": len(viol),
        }
        json.dump(ev, open(VERIF + "/evidence/%s.json" % prop, "w"), indent=1)
        for l in known_findings(prop):
            print("KNOWN-FINDING: property=%s %s" % (prop, l))
        for p, nf, what in viol:
            print("failed:", what)
            print("VIOLATION property=%s replay=%s%s" % (prop, p, " no-failing-input-found" if nf else ""))
        if undecided:
            print("undecided (bounded stand-in quiet):", ", ".join(u["contract"] for u in undecided))
        print("%s %s: %d/%d obligations discharged in %d contracts (%d bounded), %.0f s" % (prop, tier, ob_done + b_done, ob_total + b_total, len(tasks), bounded, time.time() - T0))
        return 1 if viol else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def level_of(prop):
    for c in json.load(open(VERIF + "/MANIFEST.json"))["checks"]:
        if c["property"] == prop:
            return c["level"]
    return "other"


def known_findings(prop):
    p = VERIF + "/KNOWN_FINDINGS"
    r = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                r.append(m.group(2).strip())
    return r


_covers = {}


def cover_labels(path, cid):
    """the labels a contract declares with // covers: a, b next to its VK_CONTRACT"""
    if path not in _covers:
        d = {}
        for m in re.finditer(r"^// vk-covers: (\w+) (.*)$", open(path).read(), re.M):
            d[m.group(1)] = [x.strip() for x in m.group(2).split(",")]
        _covers[path] = d
    return _covers[path].get(cid, [])


def main():
    a = sys.argv[1:]
    os.makedirs(CACHE + "/obj", exist_ok=True)
    if a[0] == "check":
        tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
        try:
            rc = check(a[1], tier)
        except BaseException as e:  # an answer is always given
            import traceback
            traceback.print_exc()
            p = VERIF + "/evidence/replays/%s-driver.json" % a[1]
            os.makedirs(os.path.dirname(p), exist_ok=True)
            json.dump({"property": a[1], "failed_obligation": "all (the verifier did not run)", "verifier_output": repr(e)}, open(p, "w"))
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (a[1], p))
            rc = 1
        sys.stdout.flush()
        os._exit(rc)
    if a[0] == "setup":
        build_engine()
        return
    if a[0] == "run":  # run FILE CONTRACT...  (development)
        engine = build_engine()
        cf = CFile(VERIF + "/contracts/" + a[1] + ".cpp")
        bc, meta, plog, err = prepare(cf, engine)
        if err:
            print(err); sys.exit(1)
        log("prepared", bc)
        ids = [x for x in a[2:] if not x.startswith("-")] or list(meta)
        extra = [x for x in a[2:] if x.startswith("-")]

        def one(i):
            return i, run_contract(engine, bc, i, cf.opts.get("*", []) + cf.opts.get(i, []), float(os.environ.get("T", "120")), "/tmp")
        with ThreadPoolExecutor(JOBS) as ex:
            for i, r in ex.map(one, ids):
                miss = [l for l in cover_labels(cf.path, i) if not r.get("covers", {}).get(l)]
                print("%-36s %s checked=%s disch=%s failed=%s unknown=%s paths=%s q=%s %.1fs/%.1fs %s %s" % (i, r.get("crash", ""), r.get("checked"), r.get("discharged"), r.get("failed"), r.get("unknown"), r.get("paths"), r.get("solver_queries"), r.get("seconds", 0), r.get("solver_seconds", 0), r.get("incomplete") or "", "MISSING " + str(miss) if miss else ""), flush=True)
                for rep in r.get("reports", [])[:4]:
                    print("    FAIL", rep["label"], "|", rep["msg"], "|", rep["where"], "| definite" if rep["definite"] else "")
                    print("        ", rep["inputs"][:12], rep["arrays"][:300])
                    for b in rep["backtrace"][:4]:
                        print("          ", b[:300])
        return
    if a[0] == "native":  # native FILE CONTRACT [secs]
        cf = CFile(VERIF + "/contracts/" + a[1] + ".cpp")
        b, err = native_binary(cf)
        if err:
            print(err); sys.exit(1)
        if len(a) > 2:
            hit, st = native_search(b, a[2], float(a[3]) if len(a) > 3 else 5, 1, "/tmp", JOBS)
            print(hit, st)
            if hit:
                print(open(hit).read().replace("\x1f", " ")); print(replay_file(b, a[2], hit))
        return
    if a[0] == "replay":  # replay CONTRACT INPUTS
        for cf in contract_files():
            if re.search(r"\b%s\b" % a[1], open(cf.path).read()) or True:
                b, err = native_binary(cf)
                if b:
                    ok, o, rc = replay_file(b, a[1], a[2])
                    if rc != 3:
                        print(o); print("exit", rc); return
        return
    print(__doc__)


main()

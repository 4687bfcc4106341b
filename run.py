#!/usr/bin/env python3
"""Driver of the deterministic simulation: builds the worlds from /repo's working tree, searches seeds on all
cores, confirms, minimises and files every violation, and writes the evidence.

  run.py setup                 build everything
  run.py check PROP            VERIF_SEED / VERIF_TIER from the environment
  run.py replay FILE           re-execute a replay file against the current tree
  run.py selftest [PROP...]    determinism over many seeds, processes and worker counts
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, struct, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
B = os.environ.get("SIM_BUILD", os.path.join(V, "build"))
OUT = os.environ.get("SIM_OUT", V)  # evidence and replays
SIM = os.path.join(V, "sim")
NPROC = max(2, min(8, os.cpu_count() or 8))
CXX = "g++"

sys.path.insert(0, V)
from props import PROPS, WORLDS, REAL, STUB  # noqa: E402

class BuildError(Exception): pass

# ---------------------------------------------------------------- build
def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode: raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout

def digest_files(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f: h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]

def repo_files(exts):
    out = []
    for d, dirs, files in os.walk(REPO):
        dirs[:] = sorted(x for x in dirs if x not in (".git", "_build", "build", "CMakeFiles"))
        for f in files:
            if f.endswith(exts): out.append(os.path.join(d, f))
    return out

def library_sources():
    """The sources of the ssz library as the project's own build lists them (plus nothing else)."""
    txt = open(os.path.join(REPO, "CMakeLists.txt")).read()
    m = re.search(r"set\(\s*ssz_sources\s+(.*?)\)", txt, re.S)
    src = m.group(1).split() if m else []
    src = [s for s in src if os.path.exists(os.path.join(REPO, s))]
    if not src:
        src = ["common/bitlist.cpp", "ssz/hasher.cpp", "ssz/hashtree.cpp", "ssz/ssz_container.cpp", "beacon-chain/attestation.cpp",
               "beacon-chain/validator.cpp", "ssz/sha256_shani.asm", "ssz/sha256_avx_one_block.asm", "ssz/sha256_avx.asm", "ssz/sha256_avx2.asm"]
    return src

class Builder:
    def __init__(self):
        os.makedirs(os.path.join(B, "obj"), exist_ok=True)
        self.hdr = digest_files(repo_files((".hpp", ".h", ".in")))
        self.asmd = digest_files(repo_files((".asm",)))
        node_side = ("api.h", "glue.hpp")  # what the real library is compiled against; the rest belongs to the simulator
        self.simn = digest_files([os.path.join(SIM, f) for f in node_side] + [os.path.join(V, "shim/helpers/bytes_to_string.hpp")])
        self.simd = digest_files([os.path.join(SIM, f) for f in os.listdir(SIM) if f.endswith((".hpp", ".h")) and f != "glue.hpp"])
        self.gen = self._gen()

    def _gen(self):
        """config.hpp, generated from the project's template exactly as cmake's configure_file would."""
        dirs = {}
        for preset in ("minimal", "mainnet"):
            g = os.path.join(B, "gen-" + preset)
            os.makedirs(os.path.join(g, "include"), exist_ok=True)
            src = os.path.join(REPO, "config", preset + ".hpp.in")
            txt = open(src).read().replace("@CMAKE_SOURCE_DIR@", "/repo")
            dst = os.path.join(g, "include", "config.hpp")
            if not os.path.exists(dst) or open(dst).read() != txt:
                tmp = dst + ".%d" % os.getpid()
                open(tmp, "w").write(txt)
                os.replace(tmp, dst)
            dirs[preset] = g
        return dirs

    def obj(self, src, flags, preset="minimal", repo_code=True):
        asm = src.endswith(".asm")
        if asm:
            cmd = ["yasm", "-f", "elf64", "-I" + REPO + "/"] + list(flags)
            key = digest_files([src], " ".join(cmd) + self.asmd)
        else:
            cmd = [CXX, "-std=c++20", "-c", "-w"] + list(flags)
            if repo_code:
                g = self.gen[preset]
                cmd += ["-I" + g, "-I" + g + "/include", "-I" + REPO, "-I" + REPO + "/include", "-I" + SIM, "-I" + os.path.join(V, "shim"), "-include", "cstdint"]
            key = digest_files([src], " ".join(cmd) + (self.simn + self.hdr if repo_code else self.simd))
        out = os.path.join(B, "obj", os.path.basename(src) + "-" + key + ".o")
        if not os.path.exists(out):
            tmp = out + ".tmp%d" % os.getpid()
            try:
                sh(cmd + ["-o", tmp, src])
            except BuildError as e:
                # the repository has translation units only clang accepts and others only gcc accepts
                if asm or not repo_code: raise
                try: sh(["clang++"] + [c for c in cmd[1:] if c != "-fno-gnu-unique"] + ["-o", tmp, src])
                except BuildError as e2: raise BuildError("%s\n----- and with clang++ -----\n%s" % (e, e2))
            os.replace(tmp, out)
        else:
            os.utime(out)
        return out

    def link(self, name, objs, cmd):
        key = hashlib.sha256((" ".join(cmd) + " ".join(objs)).encode()).hexdigest()[:24]
        out = os.path.join(B, name + "-" + key)
        if not os.path.exists(out):
            tmp = out + ".tmp%d" % os.getpid()
            sh(cmd + ["-o", tmp] + objs_libs(objs, cmd))
            os.replace(tmp, out)
        else:
            os.utime(out)
        return out

def objs_libs(objs, cmd):
    libs = [c for c in cmd if c.startswith("-l")]
    return objs + libs

def prune():
    """Old objects are only a cache; keep the build directory small."""
    d = os.path.join(B, "obj")
    fs = sorted((os.path.getmtime(os.path.join(d, f)), os.path.join(d, f)) for f in os.listdir(d))
    for _, f in fs[:-400]:
        try: os.unlink(f)
        except OSError: pass
    fs = sorted((os.path.getmtime(os.path.join(B, f)), os.path.join(B, f)) for f in os.listdir(B) if os.path.isfile(os.path.join(B, f)))
    for _, f in fs[:-60]:
        try: os.unlink(f)
        except OSError: pass

_built = {}
def build(world):
    """Returns (executable, environment) of a world built from the current tree."""
    if world in _built: return _built[world]
    b = Builder()
    w = WORLDS[world]
    lib = library_sources()
    P = cf.ThreadPoolExecutor(NPROC)
    def objs(srcs, flags, preset="minimal", repo_code=True):
        return [P.submit(b.obj, s, flags if not s.endswith(".asm") else [], preset, repo_code) for s in srcs]
    env = {}
    asm = [os.path.join(REPO, s) for s in lib if s.endswith(".asm")]
    cpp = [os.path.join(REPO, s) for s in lib if s.endswith(".cpp")]
    if world == "kernel":
        mod = objs(asm + [os.path.join(REPO, "ssz/hasher.cpp"), os.path.join(SIM, "kglue.cpp")], ["-O2", "-fPIC"])
        exe = objs([os.path.join(SIM, "kworld.cpp")], ["-O2", "-g", "-fno-pie"], repo_code=False)
        so = b.link("kern.so", [f.result() for f in mod], [CXX, "-shared", "-Wl,-Bsymbolic", "-Wl,-z,now", "-Wl,-z,noexecstack"])
        ex = b.link("kworld", [f.result() for f in exe], [CXX, "-no-pie", "-ldl", "-lpthread"])
        env = {"SIM_KERN": so, "SIM_TRACE": so + ".trace-" + os.path.basename(ex)}
    else:
        node_flags = w["node_flags"]
        mods = {}
        for preset in w.get("presets", ["minimal"]):
            mods[preset] = objs([os.path.join(SIM, "glue%d.cpp" % k) for k in range(8)] + asm + cpp, node_flags, preset)
        exe = objs([os.path.join(SIM, s) for s in w["host"]], w["host_flags"], repo_code=False)
        if w["static"]:
            ex = b.link(world, [f.result() for f in exe + mods["minimal"]], [CXX] + w["link"] + ["-lyaml-cpp", "-ldl", "-lpthread"])
        else:
            for preset, m in mods.items():
                wrap = []
                if world in ("fleet", "asan"):
                    m = m + objs([os.path.join(SIM, "nodealloc.cpp")], node_flags, preset)
                    wrap = ["-Wl,--wrap=" + x for x in ("malloc", "calloc", "realloc", "aligned_alloc", "memalign", "posix_memalign", "free")]
                so = b.link("node-%s-%s.so" % (world, preset), [f.result() for f in m], [CXX, "-shared"] + wrap + [ "-Wl,-Bsymbolic", "-Wl,-z,now", "-Wl,-z,noexecstack"] + w.get("so_link", []) + ["-lyaml-cpp"])
                env["SIM_NODE_" + preset.upper()] = so
            ex = b.link(world, [f.result() for f in exe], [CXX] + w["link"] + ["-lyaml-cpp", "-ldl", "-lpthread"])
        env.update(w.get("env", {}))
    P.shutdown()
    if world == "fleet":
        env.update(scan_cpu(env, b))
    if world == "kernel":
        e = dict(os.environ); e.update(env)
        if not os.path.exists(env["SIM_TRACE"]): sh([ex, "trace"], env=e)
    _built[world] = (ex, env)
    return _built[world]

# Which instructions of a node module need which CPU feature (disassembled from the module just built).
AVX2_RE = re.compile(r"^(vp(?!ermilp|testx?$)|vinserti|vextracti|vbroadcasti|vperm2i|vmpsadbw|vmovntdqa)")
def scan_cpu(env, b):
    out = {}
    for k in list(env):
        if not k.startswith("SIM_NODE_"): continue
        so = env[k]
        f = so + ".isa"
        if not os.path.exists(f):
            recs = []
            txt = sh(["objdump", "-d", "--no-show-raw-insn", "-M", "intel", "--section=.text", "--section=.init", "--section=.fini", so])
            for line in txt.splitlines():
                m = re.match(r"^\s*([0-9a-f]+):\s+(\S+)\s*(.*)$", line)
                if not m: continue
                a, op, rest = int(m.group(1), 16), m.group(2), m.group(3)
                if op == "cpuid": recs.append((a, "C"))
                elif op.startswith("sha256") or op.startswith("sha1"): recs.append((a, "S"))
                elif op == "xgetbv": recs.append((a, "X"))
                elif op.startswith("v") and op not in ("verr", "verw"):
                    if "zmm" in rest or re.search(r"\bk[1-7]\b", rest): recs.append((a, "5"))
                    elif "ymm" in rest and (op.startswith(("vp", "vinserti", "vextracti", "vbroadcasti", "vperm2i", "vmpsadbw")) and not op.startswith(("vpermilp", "vptest", "vperm2f"))): recs.append((a, "2"))
                    elif op in ("vpbroadcastb", "vpbroadcastw", "vpbroadcastd", "vpbroadcastq", "vpsllvd", "vpsllvq", "vpsrlvd", "vpsrlvq", "vpsravd", "vpblendd"): recs.append((a, "2"))
                    else: recs.append((a, "1"))
                elif op in ("rorx", "mulx", "sarx", "shlx", "shrx", "bzhi", "pdep", "pext", "andn", "bextr", "blsi", "blsr", "blsmsk"): recs.append((a, "B"))
            tmp = f + ".tmp%d" % os.getpid()
            open(tmp, "w").write("".join("%x %s\n" % r for r in recs))
            os.replace(tmp, f)
        out["SIM_ISA_" + k[len("SIM_NODE_"):]] = f
    return out

# ---------------------------------------------------------------- running
def run_env(env):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("VERIF", "ASAN", "SIM_"))}
    e.update(env)
    return e

def parse(out):
    vs, s, r = [], None, None
    for line in out.splitlines():
        try:
            if line.startswith("V {"): vs.append(json.loads(line[2:]))
            elif line.startswith("S {"): s = json.loads(line[2:])
            elif line.startswith("R {"): r = json.loads(line[2:])
        except ValueError: pass
    return vs, s, r

def run_plan(ex, env, path, timeout=120):
    """-> (violation or None, hash, returncode)"""
    try:
        p = subprocess.run([ex, "run", path], env=run_env(env), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        return {"class": "hang", "msg": "no end within %d s" % timeout, "hash": "hang"}, "hang", -1
    vs, _, r = parse(p.stdout)
    if vs: return vs[0], vs[0]["hash"], p.returncode
    if r is None or p.returncode not in (0,):
        return {"class": "died-%d" % p.returncode, "msg": "the process died with status %d %s" % (p.returncode, p.stderr[-400:]), "hash": "died"}, "died", p.returncode
    return None, r["hash"], 0

def read_plan(path):
    head, steps = [], []
    for l in open(path):
        l = l.rstrip("\n")
        if l.startswith("step "): steps.append(l)
        elif l.startswith(("prop ", "seed ", "knob ")): head.append(l)
    return head, steps

def write_plan(path, head, steps, comments=()):
    with open(path, "w") as f:
        for c in comments: f.write("# " + c.replace("\n", " ") + "\n")
        for l in head + steps: f.write(l + "\n")

def minimise(ex, env, head, steps, cls, tmpd, budget=150.0):
    t0 = time.time()
    n = [0]
    def bad(st):
        n[0] += 1
        p = os.path.join(tmpd, "m%d" % n[0])
        write_plan(p, head, st)
        v, _, _ = run_plan(ex, env, p, 60)
        try: os.unlink(p)
        except OSError: pass
        return v is not None and v["class"] == cls
    pool = cf.ThreadPoolExecutor(NPROC)
    def first_bad(cands):
        for i in range(0, len(cands), NPROC):
            if time.time() - t0 > budget: return None
            grp = cands[i:i + NPROC]
            for c, ok in zip(grp, pool.map(bad, grp)):
                if ok: return c
        return None
    k = 2
    while len(steps) > 1 and time.time() - t0 < budget:  # ddmin
        size = max(1, (len(steps) + k - 1) // k)
        chunks = [steps[i:i + size] for i in range(0, len(steps), size)]
        cands = [sum(chunks[:i] + chunks[i + 1:], []) for i in range(len(chunks))]
        c = first_bad(cands)
        if c is not None:
            steps, k = c, max(2, k - 1)
        elif size == 1: break
        else: k = min(len(steps), 2 * k)
    for rnd in range(2):  # smaller arguments: zero, one, then halves
        changed = False
        for i in range(len(steps)):
            w = steps[i].split()
            for j in range(2, len(w)):
                def cand(y): return steps[:i] + [" ".join(w[:j] + [str(y)] + w[j + 1:])] + steps[i + 1:]
                x = int(w[j])
                tries = [y for y in (0, 1, 2) if y < x]
                if not tries or time.time() - t0 > budget: continue
                res = list(pool.map(bad, [cand(y) for y in tries]))
                y = next((y for y, ok in zip(tries, res) if ok), None)
                if y is None and x > 8:
                    while x > 8 and time.time() - t0 < budget and bad(cand(x // 2)): x //= 2
                    y = x
                if y is not None and y < int(w[j]):
                    steps, changed = cand(y), True
                    w = steps[i].split()
        if not changed: break
    pool.shutdown()
    return steps, n[0]

def known_findings():
    p = os.path.join(V, "known-findings.json")
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p))["findings"] if k.get("status") == "known"]

def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    vseed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if tier not in ("quick", "thorough"): tier = "quick"
    cfg = PROPS[prop]
    secs, count = cfg[tier]
    secs = float(os.environ.get("SIM_SECONDS", secs))
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
    try:
        ex, env = build(cfg["world"])
    except BuildError as e:
        print("build failed:", e)
        return 2
    prune()
    tb = time.time() - t0
    tmpd = tempfile.mkdtemp(prefix="sim-%s-" % prop)
    try:
        return check2(prop, cfg, tier, vseed, secs, count, ex, env, tmpd, t0, tb)
    finally:
        shutil.rmtree(tmpd, ignore_errors=True)

def check2(prop, cfg, tier, vseed, secs, count, ex, env, tmpd, t0, tb):
    thorough = "1" if tier == "thorough" else "0"
    per = (count + NPROC - 1) // NPROC
    procs = []
    ts = time.time()
    for i in range(NPROC):
        of = open(os.path.join(tmpd, "out%d" % i), "w+")
        ef = open(os.path.join(tmpd, "err%d" % i), "w+")
        p = subprocess.Popen([ex, "search", prop, str(vseed), str(i), str(NPROC), str(per), str(secs), thorough, os.path.join(tmpd, "st%d" % i)],
                             env=run_env(env), stdout=of, stderr=ef, cwd=tmpd)
        procs.append((p, of, ef))
    vs, ss, errs = [], [], []
    for p, of, ef in procs:
        try: p.wait(timeout=secs + 180)
        except subprocess.TimeoutExpired:
            p.kill(); p.wait()
            errs.append("worker did not stop")
        of.seek(0); ef.seek(0)
        v, s, _ = parse(of.read())
        et = ef.read()
        vs += v
        if s: ss.append(s)
        elif not v: errs.append("worker ended with status %s: %s" % (p.returncode, et[-1500:]))
        of.close(); ef.close()
    search_s = time.time() - ts
    # ---- evidence
    stats = {}
    for s in ss:
        for k, n in s["stats"].items(): stats[k] = stats.get(k, 0) + n
    runs = sum(s["runs"] for s in ss); events = sum(s["events"] for s in ss); nontriv = sum(s["nontrivial"] for s in ss)
    states, shapes = set(), set()
    for i in range(NPROC):
        f = os.path.join(tmpd, "st%d" % i)
        if os.path.exists(f):
            d = open(f, "rb").read()
            for t, h in struct.iter_unpack("QQ", d): (states if t == 1 else shapes).add(h)
    samples = [x for s in ss for x in s["samples"]][:4]
    # ---- determinism sample: the same seeds again in other processes, another worker count
    det = None
    if not vs and not errs:
        det = determinism(ex, env, prop, vseed, 12 if tier == "quick" else 64, thorough, 3)
        if det["mismatches"]: errs.append("determinism sample: event hashes differ for seeds %s" % det["mismatches"][:5])
    # ---- violations: gate, minimise, gate again
    rc, nviol, known_lines, lines, tried = 0, 0, [], [], []
    seen_cls = {}
    order = []
    for v in vs:
        n = seen_cls.get(v["class"], 0)
        seen_cls[v["class"]] = n + 1
        order.append((n, v))
    order.sort(key=lambda x: x[0])
    reported = set()
    for _, v in order:
        if len(tried) >= 6 or v["class"] in reported: continue
        if time.time() - t0 > 600: break
        plan = os.path.join(tmpd, "plan-%s" % v["seed"])
        txt = subprocess.run([ex, "plan", prop, v["seed"], thorough], env=run_env(env), stdout=subprocess.PIPE, text=True).stdout
        open(plan, "w").write(txt)
        a = run_plan(ex, env, plan); b = run_plan(ex, env, plan)
        tried.append((v["seed"], v["class"], a[0] and a[0]["class"], b[0] and b[0]["class"]))
        if not a[0] or not b[0] or a[0]["class"] != b[0]["class"] or a[1] != b[1]: continue
        cls = a[0]["class"]
        head, steps = read_plan(plan)
        n0 = len(steps)
        steps, tries = minimise(ex, env, head, steps, cls, tmpd, 45.0 if tier == "quick" else 300.0)
        rp = os.path.join(OUT, "replays", "%s-%s.plan" % (prop, v["seed"]))
        write_plan(rp, head, steps)
        c = run_plan(ex, env, rp); d = run_plan(ex, env, rp)
        if not c[0] or not d[0] or c[0]["class"] != cls or c[1] != d[1]:
            write_plan(rp, *read_plan(plan)); c = a  # keep the unreduced plan, which did reproduce
        write_plan(rp, head, read_plan(rp)[1], ["property %s violated: %s" % (prop, c[0]["msg"]), "class %s; event hash %s; seed %s; reduced from %d to %d steps in %d executions" %
                   (cls, c[1], v["seed"], n0, len(steps), tries), "replay: python3 /verif/run.py replay %s" % rp])
        k = next((k for k in known_findings() if k["property"] == prop and k["class"] == cls and re.search(k["match"], c[0]["msg"])), None)
        if k:
            known_lines.append("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
            continue
        reported.add(cls)
        nviol += 1
        rc = 1
        lines.append("VIOLATION property=%s replay=%s" % (prop, rp))
        lines.append("  class=%s %s" % (cls, c[0]["msg"][:1500]))
        if nviol >= 2: break
    # a run that used up its processor time beside other work on the machine but ends when it is repeated is slow, not endless
    slow = bool(tried) and all(t[1] == "hang" and t[2] is None and t[3] is None for t in tried) and len({v["class"] for v in vs}) == 1
    if slow: print("note: %d slow runs ended when repeated" % len(tried))
    if vs and not rc and not known_lines and not slow:
        errs.append("violations seen but none reproduced exactly: %s" % tried)
    faults = {k[6:]: n for k, n in stats.items() if k.startswith("fault_")}
    probes = {k[6:]: n for k, n in stats.items() if k.startswith("probe_")}
    other = {k: n for k, n in stats.items() if not k.startswith(("fault_", "probe_"))}
    wall = time.time() - t0
    ev = {"property": prop, "tier": tier, "seed": vseed, "level": "exploration", "wall_s": round(wall, 2), "violations": nviol,
          "coverage": {
              "evaluations": runs, "distinct_nontrivial": len(shapes), "rule": cfg["rule"], "samples": samples,
              "runs_nontrivial": nontriv, "events": events, "search_seconds": round(search_s, 2), "build_seconds": round(tb, 2),
              "runs_per_hour": int(runs / search_s * 3600) if search_s else 0, "seeds_per_hour": int(runs / search_s * 3600) if search_s else 0,
              "simulated_time": {"unit": cfg["time_unit"], "total": stats.get(cfg.get("time_stat", ""), events)},
              "faults_injected": faults, "probes": probes, "counters": other,
              "distinct_states": len(states), "state_measure": cfg["states"], "interleaving_measure": cfg["shape"],
              "real_components": REAL[cfg["world"]], "stub_components": STUB[cfg["world"]],
              "determinism_sample": det},
          "assumptions": cfg["assumptions"]}
    p = os.path.join(OUT, "evidence", prop + ".json")
    json.dump(ev, open(p + ".tmp", "w"), indent=1)
    os.replace(p + ".tmp", p)
    print("%s %s: %d runs, %d events, %d distinct non-trivial, faults %s, %.1f s" % (prop, tier, runs, events, len(shapes), faults, wall))
    for l in known_lines + lines: print(l)
    if rc: return 1
    zero = [x for x in cfg.get("must_fire", []) if not stats.get(x)]
    if zero and not known_lines: errs.append("never exercised: %s" % zero)
    if errs:
        for e in errs: print("ERROR", e)
        return 2
    return 0

def determinism(ex, env, prop, vseed, n, thorough, workers):
    def hashes(start, stride, cnt):
        r = subprocess.run([ex, "hashes", prop, str(vseed), str(start), str(stride), str(cnt), thorough], env=run_env(env), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        return {int(w[1]): (w[2], w[3]) for w in (l.split() for l in r.stdout.splitlines()) if w and w[0] == "H"}
    with cf.ThreadPoolExecutor(NPROC) as P:
        one = P.submit(hashes, 0, 1, n)
        many = [P.submit(hashes, i, workers, (n + workers - 1 - i) // workers) for i in range(workers)]
        a = one.result(); b = {}
        for m in many: b.update(m.result())
    bad = sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))
    return {"seeds": n, "processes": 1 + workers, "mismatches": bad, "compared": len(set(a) & set(b))}

def main():
    if len(sys.argv) < 2: print(__doc__); return 2
    m = sys.argv[1]
    if m == "setup":
        for w in WORLDS: build(w); print("built", w)
        return 0
    if m == "check": return check(sys.argv[2])
    if m == "replay":
        head, _ = read_plan(sys.argv[2])
        prop = next(l.split()[1] for l in head if l.startswith("prop "))
        ex, env = build(PROPS[prop]["world"])
        v, h, rc = run_plan(ex, env, os.path.abspath(sys.argv[2]))
        print("hash", h)
        if v:
            print("VIOLATION property=%s replay=%s" % (prop, sys.argv[2])); print("  class=%s %s" % (v["class"], v["msg"]))
            return 1
        print("no violation")
        return 0
    if m == "selftest":
        rc = 0
        for prop in (sys.argv[2:] or list(PROPS)):
            ex, env = build(PROPS[prop]["world"])
            for vs in (1, 2, 77):
                for workers in (3, 8):
                    d = determinism(ex, env, prop, vs, PROPS[prop].get("selftest", 400), "0", workers)
                    print(prop, vs, workers, d)
                    rc |= bool(d["mismatches"]) or d["compared"] != d["seeds"]
        return int(rc)
    return 2

if __name__ == "__main__":
    sys.exit(main())

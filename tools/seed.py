#!/usr/bin/env python3
"""Makes and confirms planted bugs.  seed.py make ID... | verify ID... | catch ID...   (no ID: all of them)
The edits are in tools/seeds/<ID>.py: PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)]; demo files lie in tools/seeds/<ID>/.
make: writes seeded/<ID>/; verify: in scratch copies, tests pass with the patch, demo passes without and fails with it;
catch: applies the patch to a scratch copy and runs the check on it."""
import glob, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "tools", "seeds")
def home(i):  # changes to assembly files or of lines from a fix commit do not count for vcheck and are kept apart
    g = load(i)
    return os.path.join(V, "seeded-more" if g.get("OWN_LINES") or any(e[0].endswith(".asm") for e in g["EDITS"]) else "seeded", i)
def load(i):
    g = {}
    exec(open(os.path.join(S, i + ".py")).read(), g)
    return g
def clone(d):
    subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
def edit(d, g, i):
    for f, old, new in g["EDITS"]:
        p = os.path.join(d, f)
        s = open(p).read()
        if s.count(old) != 1: raise SystemExit("%s: %s occurs %d times: %r" % (i, f, s.count(old), old))
        open(p, "w").write(s.replace(old, new))
def make(i):
    g = load(i); d = tempfile.mkdtemp(prefix="seed-")
    try:
        clone(d + "/r"); edit(d + "/r", g, i)
        out = home(i)
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        open(out + "/patch.diff", "w").write(subprocess.run(["git", "diff"], cwd=d + "/r", capture_output=True, text=True, check=True).stdout)
        for f in glob.glob(os.path.join(S, i, "*")): shutil.copy(f, out)
        json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
        os.chmod(out + "/demo.sh", 0o755)
        print("made", i)
    finally: shutil.rmtree(d)
def build_tests(d):
    e = dict(os.environ, CC="/usr/bin/clang", CXX="/usr/bin/clang++")
    r = subprocess.run("cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Release -DMINIMAL=true -DCMAKE_ASM_NASM_COMPILER=/usr/bin/yasm >/dev/null 2>&1 && cmake --build _build --target test_sha256 -j8 2>&1 | tail -5 && ./_build/test_sha256 | tail -1 && qemu-x86_64 -cpu max ./_build/test_sha256 --exec=always | tail -1", shell=True, cwd=d, env=e, capture_output=True, text=True)
    return r.returncode == 0 and r.stdout.count("SUCCESS") == 2, r.stdout[-300:] + r.stderr[-300:]
def verify(i):
    d = tempfile.mkdtemp(prefix="seed-")
    try:
        src = home(i)
        clone(d + "/a"); clone(d + "/b")
        subprocess.run(["git", "apply", src + "/patch.diff"], cwd=d + "/b", check=True)
        shutil.copytree(src, d + "/demo")
        for f in ("patch.diff", "meta.json"): os.unlink(d + "/demo/" + f)
        res = []
        for t in ("a", "b"):
            ok, txt = build_tests(d + "/" + t)
            r = subprocess.run(["bash", d + "/demo/demo.sh"], cwd=d + "/" + t, capture_output=True, text=True, timeout=300)
            res.append((ok, r.returncode, (r.stdout + r.stderr)[-300:], txt))
        good = res[0][0] and res[1][0] and res[0][1] == 0 and res[1][1] != 0
        print(i, "GOOD" if good else "BAD", [x[:2] for x in res], "" if good else res, "| patched says:", res[1][2].strip()[-160:])
        return good
    finally: shutil.rmtree(d)
def catch(i):
    g = json.load(open(os.path.join(home(i), "meta.json"))); d = tempfile.mkdtemp(prefix="seed-")
    try:
        clone(d + "/r")
        subprocess.run(["git", "apply", os.path.join(home(i), "patch.diff")], cwd=d + "/r", check=True)
        props = [g["property"]] if "ALL" not in os.environ else json.loads(os.environ["ALL"])
        for p in props:
            e = dict(os.environ, SIM_REPO=d + "/r", SIM_BUILD=os.environ.get("SIM_BUILD", "/tmp/seedbuild"), SIM_OUT=d, VERIF_SEED="1", VERIF_TIER="quick")
            r = subprocess.run(["python3", os.path.join(V, "run.py"), "check", p], env=e, capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "  class", "ERROR"))]
            if r.returncode in (0, 1): record(i, p, next((l.split("class=")[1].split()[0] for l in v if "class=" in l), None))
            print(i, p, "CAUGHT" if r.returncode == 1 else "MISSED rc=%d" % r.returncode, " ".join(v)[:400], r.stderr[-300:] if r.returncode not in (0, 1) else "", flush=True)
    finally: shutil.rmtree(d)
def record(i, p, cls):  # what tools/table.py tells in DESIGN.md
    f = os.path.join(V, "tools", "caught.json")
    m = json.load(open(f)) if os.path.exists(f) else {}
    m.setdefault(i, {})[p] = cls
    json.dump(m, open(f, "w"), indent=0, sort_keys=True)
def quiet(i):
    """a change that keeps the behaviour (tools/benign/<ID>.py): no check may say anything"""
    g = {}; exec(open(os.path.join(V, "tools/benign", i + ".py")).read(), g); d = tempfile.mkdtemp(prefix="seed-")
    try:
        clone(d + "/r"); edit(d + "/r", g, i)
        ok, txt = build_tests(d + "/r")
        print(i, "tests pass" if ok else "TESTS FAIL " + txt, flush=True)
        for p in os.environ.get("PROPS", "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12").split():
            e = dict(os.environ, SIM_REPO=d + "/r", SIM_BUILD=os.environ.get("SIM_BUILD", "/tmp/seedbuild"), SIM_OUT=d, VERIF_SEED=os.environ.get("VS", "1"), VERIF_TIER="quick", SIM_SECONDS=os.environ.get("SECS", "15"))
            r = subprocess.run(["python3", os.path.join(V, "run.py"), "check", p], env=e, capture_output=True, text=True)
            if r.returncode: print(i, p, "ALARM rc=%d" % r.returncode, r.stdout[-600:], r.stderr[-300:], flush=True)
        print(i, "done", flush=True)
    finally: shutil.rmtree(d)
if sys.argv[1] == "quiet":
    for i in sys.argv[2:] or sorted(os.path.basename(f)[:-3] for f in glob.glob(os.path.join(V, "tools/benign/*.py"))): quiet(i)
    sys.exit()
ids = sys.argv[2:] or sorted(os.path.basename(f)[:-3] for f in glob.glob(S + "/*.py"))
for i in ids: {"make": make, "verify": verify, "catch": catch}[sys.argv[1]](i)

#!/usr/bin/env python3
"""Mutation sweep: small random edits of the library, each searched by the worlds until one check sees it.
usage: mutate.py SEED COUNT OUT [rare]   (scratch copy of /repo in /tmp/mutr, objects in /tmp/mutb; nothing of /repo is touched)
Survivors are printed for a person to judge: many are equivalent to the original."""
import os, random, re, subprocess, sys, json, shutil, concurrent.futures as cf
R, B = "/tmp/mutr", "/tmp/mutb"
FILES = """ssz/hashtree.cpp ssz/hashtree.hpp ssz/ssz_container.cpp ssz/ssz_container.hpp ssz/hasher.cpp ssz/hasher.hpp common/bitlist.cpp common/bitlist.hpp common/bitvector.hpp common/boolean.hpp
common/bytes.hpp common/containers.hpp common/slot.hpp beacon-chain/attestation.cpp beacon-chain/attestation.hpp beacon-chain/beacon_block.hpp beacon-chain/beacon_state.hpp beacon-chain/beacon_state.cpp
beacon-chain/deposits.hpp beacon-chain/eth1data.hpp beacon-chain/validator.cpp beacon-chain/validator.hpp helpers/bytes_to_int.hpp helpers/math.hpp config/constants.hpp""".split()
OPS = [(r"<=", ["<", ">="]), (r">=", [">", "<="]), (r"==", ["!="]), (r"!=", ["=="]), (r"(?<![<\-=>])>(?![>=])(?= )", [">=", "<"]), (r"(?<= )<(?![<=])(?= )", ["<=", ">"]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
       (r"(?<= )\+(?= )", ["-"]), (r"(?<= )-(?= )", ["+"]), (r"(?<= )\*(?= )", ["+"]), (r"(?<= )/(?= )", ["*"]), (r"(?<= )%(?= )", ["/"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
       (r"\+\+", ["--"]), (r"<<", [">>"]), (r">>", ["<<"]), (r"\|=", ["^=", "&=", "="]), (r"\+=", ["-=", "="]), (r"\b(\d+)\b", ["N+1", "N-1"]), (r"\.size\(\)", [".size() - 1", ".size() + 1"]),
       (r"std::uint64_t", ["std::uint32_t"]), (r"std::uint32_t", ["std::uint16_t"]), (r"std::size_t", ["std::uint16_t", "std::uint8_t"]), (r"(?<!template <)\bauto &", ["auto "]), (r"\bauto (?=[a-z_]+ =)", ["static auto "]),
       (r"^\s+[^{}]*;$", [""]), (r"!(?=[a-z_(])", [""]), (r"\(([a-z_&]+), ([a-z_&]+)\)", ["(\\2, \\1)"]), (r"\{(&[a-z_]+), (&[a-z_]+)", ["{\\2, \\1"]), (r", &[a-z_]+\}", ["}"])]
RARE = "([] { static unsigned long n_; return ++n_ %% %d == 0; }())"
def rare():  # a statement is left out, or a test not made, only once in so many times
    out = []
    for f in FILES:
        L = open(os.path.join("/repo", f)).read().split("\n")
        for i, l in enumerate(L):
            for m in (3, 17, 101):
                r = RARE % m
                g = re.match(r"(\s+)(?:else )?if \((.*)\) (return [^;]*;|throw .*;|ret .*;)$", l)
                if g: out.append((f, i, l, l.replace("if (" + g.group(2) + ")", "if ((" + g.group(2) + ") && !" + r + ")"))); continue
                g = re.match(r"(\s+)((?:for \(.*\) )?)([^{}]*;)$", l)
                if g and not re.match(r"(return|break|continue|std::\w+ \w+;|[A-Z]\w* [\w, ]+;|static|private|public|bool|BytesVector|YAML|std::vector|std::size_t|std::string|auto|const|using|friend|virtual|explicit|operator|Chunk|if|else|throw|Epoch|Slot|\*|//|int )", g.group(3)) and "= default" not in l and ") const;" not in l and "= 0;" not in l and not re.search(r"^\s+[\w:<>, ]+ \w+(\{.*\})?;$", l):
                    out.append((f, i, l, g.group(1) + g.group(2) + "if (!" + r + ") " + g.group(3)))
    return out
def candidates():
    out = []
    for f in FILES:
        if not os.path.exists(os.path.join("/repo", f)): continue
        L = open(os.path.join("/repo", f)).read().split("\n")
        incomment = False
        for i, l in enumerate(L):
            if "/*" in l: incomment = True
            if "*/" in l: incomment = False; continue
            t = l.strip()
            if incomment or not t or t.startswith(("//", "#", "*", "using", "namespace", "template", "requires", "friend", "constexpr typename")) : continue
            for pat, subs in OPS:
                for m in re.finditer(pat, l):
                    for s in subs:
                        x = m.expand(s) if "\\" in s else s
                        if s in ("N+1", "N-1"): x = str(int(m.group(1)) + (1 if s == "N+1" else -1))
                        if pat.startswith("^") and (re.match(r"\s*(return|break|continue|std::\w+ \w+;|[A-Z]\w* [\w, ]+;|static|private|public|bool|BytesVector|YAML|std::vector|auto|const)", l)): continue
                        n = l[:m.start()] + x + l[m.end():]
                        if n != l: out.append((f, i, l, n))
    return out
def child(f):
    sys.path.insert(0, "/verif")
    os.environ["SIM_REPO"], os.environ["SIM_BUILD"] = R, B
    import run
    for w in ("fleet", "watch"):
        run.WORLDS[w]["node_flags"] = [x for x in run.WORLDS[w]["node_flags"] if not x.startswith("-O")] + ["-O1" if w == "watch" else "-O0"]
    run.WORLDS["fleet"]["presets"] = ["minimal"]
    try: ex, env = run.build("fleet")
    except run.BuildError as e: print("BUILD"); return
    def go(ex, env, prop, secs):
        def one(i):
            try: return subprocess.run([ex, "search", prop, "1", str(i), "6", "100000000", str(secs), "0", "/tmp/mutb/st%d" % i], env=run.run_env(env), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=200)
            except subprocess.TimeoutExpired: return None
        with cf.ThreadPoolExecutor(6) as P: rs = list(P.map(one, range(6)))
        for p in rs:
            if p is None: return "TIMEOUT"
            v, s, _ = run.parse(p.stdout)
            if v: return v[0]["class"]
            if p.returncode: return "STATUS %d" % p.returncode
        return None
    if f.startswith(("beacon-chain/att", "beacon-chain/val", "config", "common/slot")):
        wex, wenv = run.build("watch")
        k = go(wex, wenv, "C11", 5)
        if k: print("KILLED C11", k); return
    for prop, secs in (("C05", 4), ("C03", 4), ("C10", 4), ("C04", 5), ("C09", 5), ("C05", 10), ("C06", 6), ("C08", 6), ("C04", 10)):
        k = go(ex, env, prop, secs)
        if k: print("KILLED", prop, k); return
    print("SURVIVED")
if __name__ == "__main__":
    if sys.argv[1] == "child": child(sys.argv[2]); sys.exit(0)
    seed, count, outf = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    cs = rare() if len(sys.argv) > 4 else candidates()
    random.Random(seed).shuffle(cs)
    print(len(cs), "candidates")
    if os.path.isdir(R): shutil.rmtree(R)
    subprocess.run(["git", "clone", "-q", "/repo", R], check=True)
    for f, i, l, n in cs[:count]:
        p = os.path.join(R, f)
        src = open(os.path.join("/repo", f)).read()
        L = src.split("\n"); L[i] = n
        open(p, "w").write("\n".join(L))
        o = subprocess.run([sys.executable, os.path.abspath(__file__), "child", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).stdout.strip().split("\n")[-1]
        open(p, "w").write(src)
        open(outf, "a").write("%s | %s:%d | %s | %s\n" % (o[:100], f, i + 1, l.strip(), n.strip()))

"""mutate.py OUT N SEED [FILE...]: random one-line mutants of the C++ sources, each judged by the checks of the file's properties.
Works on copies only: MUT_REPO (default /tmp/mut/repo) is a copy of /repo, MUT_VERIF (default /tmp/mut/verif) one of /verif.
Lines that were never executed (COV: directory of .gcov files) are left alone."""
import glob, json, os, random, re, subprocess, sys, time
REPO = os.environ.get("MUT_REPO", "/tmp/mut/repo"); VERIF = os.environ.get("MUT_VERIF", "/tmp/mut/verif"); COV = os.environ.get("COV", "/tmp/cov")
MAP = {"src/atop/ops_binary.cpp": "C01 C05 C06", "src/atop/ops_compare.cpp": "C02", "src/atop/ops_unary.cpp": "C03", "src/atop/ops_log.cpp": "C04", "src/atop/ops_trig.cpp": "C04 C19",
       "src/atop/avx_mathfun.h": "C04", "src/atop/sort.cpp": "C07 C08", "src/pnumpy/getitem.cpp": "C10", "src/atop/recarray.cpp": "C12", "src/pnumpy/conversions.cpp": "C12 C20", "src/atop/fill.cpp": "C11",
       "src/pnumpy/arange.cpp": "C11", "src/pnumpy/item_selection.cpp": "C09 C07 C08", "src/pnumpy/sorting.cpp": "C08 C20", "src/pnumpy/_pnumpy.cpp": "C05 C01 C14 C24 C13", "src/atop/threads.h": "C01 C13 C15 C16",
       "src/atop/threads.cpp": "C13 C14 C15 C16", "src/pnumpy/ledger.cpp": "C18", "src/pnumpy/common.cpp": "C10 C08 C20 C21 C22", "src/atop/atop.cpp": "C14 C01"}
SUB = [(r"(?<![<\-])<(?![<=])", "<="), (r"<=", "<"), (r"(?<![>\-])>(?![>=])", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "), (r"&&", "||"), (r"\|\|", "&&"),
       (r"\b(\d+)\b", lambda m: str(int(m.group(1)) + 1)), (r"\b([1-9]\d*)\b", lambda m: str(int(m.group(1)) - 1)), (r" & ", " | "), (r" \* ", " + "), (r"\+=", "-="), (r"\+\+", "--"), (r"\bin2\b|pDataIn2", "pDataIn1"),
       (r"strideIn1", "strideIn2"), (r"strideIn2", "strideOut"), (r"^(\s*)(?!return)[A-Za-z_][^{}]*;\s*$", r"\1;"), (r"\bbreak;", ";"), (r"!", ""), (r"(?<=\()0(?=\))", "1"), (r"\btrue\b", "false")]
def covered(f):
    """line -> count, from gcov's text"""
    out = {}
    g = os.path.join(COV, f.replace("/", "#") + ".gcov")
    if os.path.exists(g):
        for l in open(g, errors="replace"):
            p = l.split(":", 2)
            if len(p) == 3 and p[0].strip() not in ("-", "#####", "=====") and p[1].strip().isdigit() and int(p[1]) and re.match(r"\s*\d", p[0]):
                out[int(p[1])] = p[0].strip()
    return out
def mutants(f, rng):
    lines = open(os.path.join(REPO, f), newline="").read().split("\n")
    cov = covered(f)
    while True:
        i = rng.randrange(len(lines))
        l = lines[i]
        if (cov and i + 1 not in cov) or re.match(r"\s*(//|#|\*|/\*|template|static inline|LOGGING|printf|\}|typedef|extern)", l) or not l.strip() or "LOGGING" in l or "PyErr_Format" in l or "inline" in l or " case " in l:
            continue
        code = l.split("//")[0]
        ops = [(a, b, m) for a, b in SUB for m in re.finditer(a, code)]
        if not ops: continue
        a, b, m = rng.choice(ops)
        new = code[:m.start()] + (b(m) if callable(b) else m.expand(b)) + code[m.end():]
        if new == code or re.search(r"\"[^\"]*$", code[:m.start()]): continue
        yield i, l, new + ("\r" if l.endswith("\r") and not new.endswith("\r") else ""), lines
def main():
    out, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    rng = random.Random(seed)
    files = sys.argv[4:] or sorted(MAP)
    gens = {}
    for k in range(n):
        f = files[k % len(files)]
        g = gens.setdefault(f, mutants(f, rng))
        i, old, new, lines = next(g)
        path = os.path.join(REPO, f)
        res = {"file": f, "line": i + 1, "old": old.strip(), "new": new.strip(), "t": time.time()}
        try:
            with open(path, "w", newline="") as h: h.write("\n".join(lines[:i] + [new] + lines[i + 1:]))
            env = dict(os.environ, VERIF_REPO=REPO, VERIF_SEED="1")
            b = subprocess.run(["python3-vt", "-c", "import vbuild; print(vbuild.build())"], cwd=VERIF + "/harness", env=env, capture_output=True, text=True)
            if b.returncode:
                res["r"] = "no build"
            else:
                res["r"] = "SURVIVED"
                for c in MAP[f].split():
                    try: r = subprocess.run(["python3-vt", "vrun.py", c, "--tier", "quick"], cwd=VERIF + "/harness", env=env, capture_output=True, text=True, timeout=600)
                    except subprocess.TimeoutExpired: res["r"] = "timeout " + c; break
                    if r.returncode == 1: res["r"] = "caught " + c; break
                    if r.returncode: res["r"] = "rc %d %s" % (r.returncode, c); break
        finally:
            with open(path, "w", newline="") as h: h.write("\n".join(lines))
        res["t"] = round(time.time() - res["t"])
        with open(out, "a") as h: h.write(json.dumps(res) + "\n")
main()

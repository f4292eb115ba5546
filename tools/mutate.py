"""Mutation survey (development aid, not a check): python3 tools/mutate.py N SEED OUT [file substring ...]
Mutates lines of /repo/src in scratch copies under /tmp and runs the checks anchored on the file; writes the survivors to OUT."""
import sys, os, re, random, subprocess, shutil, json, threading, queue, time
V = "/verif"
FILES = {}
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    for f in p["anchors"]["files"]:
        FILES.setdefault(f, []).append(p["id"])
EXTRA = {"src/core/real_analysis.h": ["C13", "C12", "C24", "C14"]}
SW = [(r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
      (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "), (r" \+= ", " -= "), (r" -= ", " += "), (r" \*= ", " /= "), (r" \+= ", " = "),
      (r"\bsin\b", "cos"), (r"\bcos\b", "sin"), (r"rows\(\)", "cols()"), (r"cols\(\)", "rows()"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
      (r"\bsquare\(", "abs("), (r"\bexp\(", "abs("), (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\.a\b", ".b"), (r"\[i\]", "[0]"), (r"\(i, j\)", "(j, i)"),
      (r"= 0;", "= 1;"), (r"= 1;", "= 2;"), (r"\b2\b", "3"), (r"\b2\.0\b", "2.5"), (r"\b0\.5\b", "0.25"), (r"\b3\b", "4"), (r"-(?=[a-z])", ""), (r"\+\+i", "i += 2"),
      (r"\babs\(", "("), (r"\bmax\(", "min("), (r"\bmin\(", "max("), (r" >> ", " << "), (r" << ", " >> "), (r" \^ ", " | "), (r" % ", " / ")]


def code_lines(path):
    skip = 0
    out = []
    for i, l in enumerate(open(path)):
        s = l.strip()
        if s.startswith("#ifndef THEORETICA_NO_PRINT"):
            skip = 1
        if skip and s.startswith("#endif"):
            skip = 0
        if skip or not s or s.startswith(("//", "#", "template", "*", "namespace", "using", "typedef", "class", "struct", "inline", "friend", "static_assert", "public", "private")):
            continue
        if "MATH_ERROR" in s:
            out.append((i, l, "del"))
            continue
        if "operator" in s or "iter = OPTIM" in s or "ITER" in s:
            continue
        out.append((i, l, "op"))
    return out


def mutants(f, n, rnd):
    c = []
    for i, l, k in code_lines("/repo/" + f):
        code = l.split("//")[0]
        if k == "del":
            c.append((i, re.sub(r"\S.*", ";", l.rstrip("\n")) + "\n"))
            continue
        for a, b in SW:
            for m in re.finditer(a, code):
                x = code[:m.start()] + b + code[m.end():]
                c.append((i, x.rstrip("\n") + "\n"))
        if re.match(r"^\s*[\w\[\]\(\)\., ]+ ([-+*/]?=) .*;\s*$", code) and not re.match(r"^\s*(const|real|int|unsigned|auto|Type|T|vec|mat|std|complex)\b", code):
            c.append((i, re.sub(r"\S.*", ";", code.rstrip("\n")) + "\n"))
    rnd.shuffle(c)
    # spread over the lines
    seen, out = {}, []
    for i, x in sorted(c, key=lambda t: rnd.random()):
        if seen.get(i, 0) < 1:
            seen[i] = 1
            out.append((i, x))
    return out[:n]


def main():
    n, seed, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    pats = sys.argv[4:]
    rnd = random.Random(seed)
    q = queue.Queue()
    for f in sorted(FILES):
        if pats and not any(p in f for p in pats):
            continue
        for i, x in mutants(f, n, rnd):
            q.put((f, i, x))
    tot = q.qsize()
    st = {"caught": 0, "invalid": 0, "survived": 0}
    lock = threading.Lock()
    log = open(out, "w")

    def work(w):
        r, v = "/tmp/mut_r%d" % w, "/tmp/mut_v%d" % w
        for d in (r, v):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
        shutil.copytree("/repo/src", r + "/src")
        for d in ("thv", "contracts", "include", "runtime", "tools"):
            shutil.copytree(V + "/" + d, v + "/" + d)
        for d in ("check", "known-findings.txt"):
            shutil.copy(V + "/" + d, v + "/" + d)
        while True:
            try:
                f, i, x = q.get_nowait()
            except queue.Empty:
                break
            src = open("/repo/" + f).read().split("\n")
            old = src[i]
            src[i] = x.rstrip("\n")
            open(r + "/" + f, "w").write("\n".join(src))
            res = "survived"
            t0 = time.time()
            for p in EXTRA.get(f, FILES[f]):
                try:
                    o = subprocess.run(["./check", p, "--jobs", "4"], cwd=v, env=dict(os.environ, THV_REPO=r, THV_NOCONFIRM="1"), stdout=subprocess.PIPE,
                                       stderr=subprocess.STDOUT, text=True, timeout=600)
                    if "do not compile" in o.stdout:
                        res = "invalid"
                        break
                    if o.returncode:
                        res = "caught"
                        break
                except subprocess.TimeoutExpired:
                    res = "timeout"
                    break
            open(r + "/" + f, "w").write(open("/repo/" + f).read())
            with lock:
                st[res] = st.get(res, 0) + 1
                if res in ("survived", "timeout"):
                    log.write("%s %s:%d  (%ds)\n   - %s\n   + %s\n" % (res, f, i + 1, time.time() - t0, old.strip(), x.strip()))
                    log.flush()
        for d in (r, v):
            shutil.rmtree(d, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(w,)) for w in range(3)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    log.write("total %d %s\n" % (tot, st))
    log.close()


main()

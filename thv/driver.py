"""Check driver: compiles the contract translation units of one property against /repo's current source, generates
and discharges every obligation, replays counterexamples on the real code, writes the evidence file."""
import argparse
import glob
import json
import multiprocessing as mp
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

sys.setrecursionlimit(200000)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("THV_REPO", "/repo")
sys.path.insert(0, VERIF)

CXX = "clang++-18"
IRFLAGS = ["-w", "-std=c++14", "-O0", "-Xclang", "-disable-O0-optnone", "-ffp-contract=off", "-D_GLIBCXX_ASSERTIONS",
           "-gline-tables-only", "-emit-llvm", "-c"]
NATFLAGS = ["-w", "-std=c++14", "-O1", "-g1", "-ffp-contract=off", "-D_GLIBCXX_ASSERTIONS", "-DTHV_NATIVE",
            "-fsanitize=address,bounds,shift,integer-divide-by-zero,signed-integer-overflow,null",
            "-fno-sanitize-recover=all"]
INC = ["-I" + REPO + "/src", "-I" + os.path.join(VERIF, "include")]

BASE_ASSUMPTIONS = [
    "real-mode contracts: machine floating-point arithmetic treated as exact real arithmetic (rounding, overflow and "
    "underflow ignored; NaN and infinities are tracked); contracts marked IEEE() use exact binary64 semantics instead",
    "real mode reads each floating-point literal as the simplest rational that rounds to it (0.1 is 1/10)",
    "long double (x87) arithmetic is treated as exact real arithmetic; conversions to double are exact",
]
TRUSTED = ["clang++-18 front end, opt-18 sroa/internalize/globaldce (IR of the real code, no optimisation)",
           "the obligation generator in /verif/thv (symbolic executor over LLVM IR)",
           "back ends: exact rational-function normal form (thv/nf.py), polynomial identity testing over GF(2^127-1) "
           "(thv/solve.py), z3, cvc5",
           "contracts of external code: operator new/delete, memcpy/memset, errno, libm entry points, x87 instructions"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def load_known(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"finding: property=(\S+) contract=(\S+) obligation=(\S+) (.*)$", l)
            if m and m.group(1) == prop:
                out.append({"contract": m.group(2), "obligation": m.group(3), "what": m.group(4)})
    return out


_MODS = {}
_CFG = {}


def _job(arg):
    src, name, deadline = arg
    from thv.execu import Exec
    t0 = time.time()
    try:
        e = Exec(_MODS[src], {"deadline": t0 + deadline, "maxpaths": 20000, "seed": _CFG.get("seed", 1)})
        if os.environ.get("THV_PROF"):
            import cProfile
            import pstats
            pr = cProfile.Profile()
            pr.runcall(e.run, "thvc_" + name)
            pstats.Stats(pr).sort_stats("cumtime").print_stats(35)
        else:
            e.run("thvc_" + name)
        fails = e.failures[:60]
        for f in fails:
            if f.get("model"):
                f["model"] = dict(f["model"])
        hints = sorted(_hints(_MODS[src], e.funcs_seen))[:40]
        return {"contract": name, "src": src, "paths": e.paths, "completed": e.completed, "ensured": e.ensured,
                "failures": fails, "incomplete": e.incomplete, "stats": dict(e.stats.d if hasattr(e.stats, "d") else e.stats),
                "assumptions": sorted(e.assumptions), "funcs": sorted(e.funcs_seen), "bounded": sorted(e.bounded),
                "ieee": e.ieee, "hints": hints, "wall": time.time() - t0, "notes": sorted(getattr(e, "notes", [])),
                "summarised": e.summarised}
    except Exception as ex:  # an engine fault leaves the contract undecided
        import traceback
        return {"contract": name, "src": src, "paths": 0, "completed": 0, "ensured": 0, "incomplete": ["engine: %r" % ex],
                "failures": [{"kind": "engine", "name": "engine", "verdict": "unknown", "backend": "exec", "model": None,
                              "msg": traceback.format_exc()[-1500:], "where": "?", "inputs": [], "path": [], "line": 0, "pick": {}}],
                "stats": {}, "assumptions": [], "funcs": [], "bounded": [], "hints": [], "wall": time.time() - t0, "notes": []}


def _undecided(src, name, why, wall):
    return {"contract": name, "src": src, "paths": 0, "completed": 0, "ensured": 0, "incomplete": [why],
            "failures": [{"kind": "incomplete", "name": why, "verdict": "unknown", "backend": "exec", "model": None,
                          "msg": why, "where": "?", "inputs": [], "path": [], "line": 0, "pick": {}}],
            "stats": {}, "assumptions": [], "funcs": [], "bounded": [], "hints": [], "wall": wall, "notes": []}


def _child(task, conn):
    r = _job(task)
    try:
        conn.send(r)
    except Exception as ex:
        conn.send(_undecided(task[0], task[1], "engine: result not transferable: %r" % ex, r["wall"]))
    conn.close()
    os._exit(0)


def run_jobs(tasks, jobs, budget):
    """one process per contract, each with a hard deadline, so that a solver which ignores its limits cannot block the check"""
    from multiprocessing.connection import wait
    ctx = mp.get_context("fork")
    todo = list(reversed(tasks))
    live = {}
    end = time.time() + budget
    while todo or live:
        now = time.time()
        while todo and len(live) < jobs:
            t = todo.pop()
            if now > end:
                yield _undecided(t[0], t[1], "not reached within the time budget of the check", 0.0)
                continue
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(t, b))
            p.start()
            b.close()
            live[a] = (p, t, now)
        if not live:
            continue
        for c in wait(list(live), timeout=1.0):
            p, t, st = live.pop(c)
            try:
                r = c.recv()
            except EOFError:
                r = _undecided(t[0], t[1], "the verifier process ended without an answer", time.time() - st)
            c.close()
            p.join(5)
            if p.is_alive():
                p.kill()
                p.join()
            yield r
        for c, (p, t, st) in list(live.items()):
            if time.time() - st > t[2] + 45:
                p.kill()
                p.join()
                c.close()
                del live[c]
                yield _undecided(t[0], t[1], "no answer within the time limit", time.time() - st)


def _hints(mod, funcs):
    """constants compared against in the code, used to steer the native search"""
    out = set()
    for fn in funcs:
        f = mod.funcs.get(fn)
        if f is None or not getattr(f, "_loaded", False):
            continue
        for b in f.blocks:
            for I in b.insts:
                if I.op in ("fcmp", "icmp", "switch"):
                    for o in I.ops:
                        if isinstance(o, tuple) and o and o[0] in ("k", "f") and abs(o[1]) < 1e9:
                            out.add(float(o[1]))
    return out


def fmtnum(v):
    if isinstance(v, Fraction):
        try:
            return (v.numerator / v.denominator).hex() if v.denominator != 1 else float(v).hex()
        except OverflowError:
            return "1e300"
    if isinstance(v, float):
        if v != v:
            return "nan"
        if v in (float("inf"), float("-inf")):
            return "inf" if v > 0 else "-inf"
        return v.hex()
    return str(v)


def replay_text(f):
    m = f.get("model") or {}
    lines = []
    for (n, kind, const) in f["inputs"]:
        if kind in ("pick",):
            lines.append("%s %d" % (n, const))
        elif kind == "const":
            lines.append("%s %s" % (n, const))
        elif n in m:
            lines.append("%s %s" % (n, fmtnum(m[n])))
    for fn, tab in (m.get("!uf") or {}).items():
        if not fn.startswith("uf"):
            continue
        try:
            ents = tab[0] if isinstance(tab, tuple) else list(tab.items())
            for args, r in ents:
                args = args if isinstance(args, (tuple, list)) else (args,)
                lines.append("uf %s %d %s %s" % (fn, len(args), " ".join(fmtnum(a) for a in args), fmtnum(r)))
        except Exception:
            pass
    return "\n".join(lines) + "\n"


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:detect_stack_use_after_return=0",
           UBSAN_OPTIONS="print_stacktrace=0")


def native_build(tmp, srcs, names, tier):
    d = tempfile.mkdtemp(prefix="native", dir=tmp)
    with open(os.path.join(d, "table.cpp"), "w") as f:
        f.write("struct Entry{const char*name;void(*fn)();};\n")
        for n in names:
            f.write('extern "C" void thvc_%s();\n' % n)
        f.write("Entry thv_table[]={%s{0,0}};\n" % "".join('{"%s",thvc_%s},' % (n, n) for n in names))
    objs = []
    jobs = []
    for s in srcs + [os.path.join(d, "table.cpp"), os.path.join(VERIF, "runtime", "native.cpp")]:
        o = os.path.join(d, os.path.basename(s) + ".o")
        objs.append(o)
        fl = NATFLAGS + (["-DTHV_THOROUGH"] if tier == "thorough" else [])
        if s.endswith("native.cpp") or s.endswith("table.cpp"):
            fl = ["-O1", "-w", "-std=c++14"]
        jobs.append([CXX] + fl + ["-c", s, "-o", o] + INC)
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(sh, jobs))
    for r in rs:
        if r.returncode:
            return None, r.stdout
    exe = os.path.join(d, "contracts")
    r = sh([CXX, "-fsanitize=address,undefined"] + objs + ["-o", exe])
    if r.returncode:
        return None, r.stdout
    return exe, ""


def crashed(rc):
    return rc == 66 or rc < 0 or rc in (134, 139, 137, 142)


def run_native(cmd, timeout):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=ENV, timeout=timeout)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), "timeout"


def _exact(arg):
    """one run of the contract on concrete inputs in exact arithmetic"""
    src, name, text, q = arg
    from thv.execu import Exec
    from thv.solve import NumFail
    fixed, tabs, seed = {}, {}, 0
    for l in text.splitlines():
        w = l.split()
        if w and w[0] == "INPUT":
            w = w[1:]
        if len(w) < 2:
            continue
        if w[0] in ("seed", "SEED"):
            seed = int(w[1])
        elif w[0] == "uf":
            n = int(w[2])
            tabs.setdefault(w[1], []).append(([float.fromhex(x) if "x" in x else float(x) for x in w[3:3 + n]],
                                              float.fromhex(w[3 + n]) if "x" in w[3 + n] else float(w[3 + n])))
        elif w[0] != "FAIL":
            fixed[w[0]] = w[1]
    try:
        e = Exec(_MODS[src], {"deadline": time.time() + 25, "maxpaths": 64, "fixed": fixed, "ufseed": seed, "uftabs": tabs})
        e.run("thvc_" + name)
        bad = [f for f in e.failures if f["kind"] not in ("unwinding", "unsupported")]
        if bad:
            f = bad[0]
            q.put((True, "%s `%s' at %s %s" % (f["kind"], f["name"], f["where"], f["msg"][:300])))
        else:
            q.put((None if e.failures or e.incomplete else False, "; ".join(str(f["msg"]) for f in e.failures[:1])))
    except NumFail:
        q.put((None, "not evaluated"))
    except Exception as ex:
        q.put((None, repr(ex)))


def exact_run(src, name, text):
    """True: the contract fails on these inputs in exact arithmetic; False: it holds (the native failure is a rounding artefact); None: undecided"""
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    p = ctx.Process(target=_exact, args=((src, name, text, q),))
    p.start()
    try:
        r = q.get(timeout=40)
    except Exception:
        r = (None, "timeout")
    p.terminate()
    p.join()
    return r


def confirm(exe, tmp, res, seed, budget):
    """search for a concrete failing input of the contract on the real code"""
    name = res["contract"]
    for i, f in enumerate(res["failures"][:12]):
        if f["kind"] in ("engine",):
            continue
        path = os.path.join(tmp, "rp_%s_%d.txt" % (name, i))
        for sd in (range(3) if (f.get("model") or {}).get("!uf") else range(1)):
            with open(path, "w") as h:
                h.write(replay_text(f) + "seed %d\n" % sd)
            rc, out, err = run_native([exe, "replay", name, path], 20)
            if rc == 1 or crashed(rc):
                ok, how = (True, "IEEE contract") if res.get("ieee") else exact_run(res["src"], name, open(path).read())
                if not (ok or (ok is None and crashed(rc))):
                    continue
                return {"exact": how, "how": "verifier counterexample replayed", "inputs": open(path).read(), "out": out[-3000:], "err": err[-3000:],
                        "rc": rc, "failure": f}
            if rc == 124 and f["kind"] == "unwinding":
                return {"how": "does not terminate within 20 s on the replayed input", "inputs": open(path).read(), "out": out[-3000:],
                        "err": err[-3000:], "rc": rc, "failure": f}
    progress = os.path.join(tmp, "pg_" + name)
    end = time.time() + budget
    k = 0
    while time.time() < end:
        rc, out, err = run_native([exe, "fuzz", name, "%g" % max(0.5, end - time.time()), str(seed + k), progress] +
                                  ["%r" % h for h in res["hints"]], budget + 40)
        k += 1
        if rc == 1 or crashed(rc):
            if crashed(rc):     # repeat the run, printing its inputs before they are used
                _, out2, _ = run_native([exe, "trace", name, "0", str(seed + k - 1), progress] + ["%r" % h for h in res["hints"]], 30)
                out = out2 + out
            ins = "\n".join(l for l in out.splitlines() if l.startswith("INPUT") or l.startswith("SEED"))
            ok, how = (True, "IEEE contract") if res.get("ieee") else exact_run(res["src"], name, ins)
            if not (ok or (ok is None and crashed(rc))):
                continue
            return {"exact": how, "how": "native search after the failed obligation", "inputs": ins or "fuzz seed %d progress %s" % (seed, progress),
                    "out": out[-3000:], "err": err[-3000:], "rc": rc, "failure": res["failures"][0]}
        if rc == 0:
            break
    return None


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args(argv)
    prop, tier = a.prop, a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="thv_%s_" % prop)
    try:
        return check(prop, tier, seed, tmp, t0, a)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def contracts_of(bc):
    r = sh(["llvm-nm-18", "--defined-only", "--just-symbol-name", bc])
    return [l.strip()[5:] for l in r.stdout.split("\n") if l.strip().startswith("thvc_")]


def check(prop, tier, seed, tmp, t0, a):
    srcs = sorted(glob.glob(os.path.join(VERIF, "contracts", prop + "*.cpp")))
    if not srcs:
        print("no contracts for", prop)
        return 2
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    edir = os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    replay = os.path.join(rdir, prop + ".txt")
    quick_deadline = 150 if tier == "quick" else 900
    compile_errors = []
    names = {}

    def comp(src):
        b = os.path.join(tmp, os.path.basename(src))
        ns = []
        fl = ["-DTHV_THOROUGH"] if tier == "thorough" else []
        r = sh([CXX] + IRFLAGS + fl + [src, "-o", b + ".bc"] + INC)
        if r.returncode == 0:
            ns = contracts_of(b + ".bc")
            r = sh(["opt-18", "-passes=internalize,globaldce,function(sroa)",
                    "-internalize-public-api-list=" + ",".join("thvc_" + n for n in ns), b + ".bc", "-o", b + ".2.bc"])
        return src, ns, r.returncode, r.stdout, b + ".2.bc"

    with ThreadPoolExecutor(8) as ex:
        comps = list(ex.map(comp, srcs))
    from thv.llvmir import Module
    import thv.execu
    tasks = []
    for src, ns, rc, out, bc in comps:
        names[src] = ns
        if rc:
            compile_errors.append((src, out))
            continue
        _MODS[src] = Module(bc)
        for n in ns:
            if a.only and not re.search(a.only, n):
                continue
            tasks.append((src, n, quick_deadline))
    _CFG["seed"] = seed
    t_comp = time.time() - t0
    results = []
    if tasks:
        import gc
        gc.collect()
        gc.freeze()
        if True:
            for r in run_jobs(tasks, a.jobs, 360 if tier == "quick" else 7200):
                results.append(r)
                if a.v:
                    print("%-34s paths %4d/%4d ens %4d obl %5d/%5d mem %6d fails %2d %s %.1fs" % (
                        r["contract"], r["completed"], r["paths"], r["ensured"], r["stats"].get("discharged", 0),
                        r["stats"].get("obl", 0), r["stats"].get("mem_obl", 0), len(r["failures"]), r["incomplete"][:2], r["wall"]), flush=True)
                    for f in r["failures"][:3]:
                        print("     ", f["kind"], f["name"], f["verdict"], f["backend"], f["where"], f["msg"][:300],
                              {k: str(v)[:60] for k, v in (f["model"] or {}).items()}, f["pick"], "\n          path:", [p[:200] for p in f["path"][:8]], flush=True)
    results.sort(key=lambda r: (r["src"], r["contract"]))
    known = load_known(prop)
    # vacuity and completeness are obligations of the contract itself
    for r in results:
        r["expected"] = []
        for why in r["incomplete"]:
            if not r["failures"]:
                r["failures"].append({"kind": "incomplete", "name": why, "verdict": "unknown", "backend": "exec", "model": None, "msg": why,
                                      "where": "?", "inputs": [], "path": [], "line": 0, "pick": {}})
        if not r["failures"] and (r["completed"] == 0 or r["ensured"] == 0):
            r["failures"].append({"kind": "vacuous", "name": "no completed path reaches a postcondition", "verdict": "unknown",
                                  "backend": "exec", "model": None, "msg": "", "where": "?", "inputs": [], "path": [], "line": 0, "pick": {}})
        keep = []
        for f in r["failures"]:
            k = [x for x in known if x["contract"] == r["contract"] and (x["obligation"] == f["name"] or x["obligation"] == f["kind"]
                                                                       or x["obligation"] == f["kind"] + "@" + f["where"].split(":")[0])]
            if k:
                r["expected"].append((k[0], f))
            else:
                keep.append(f)
        r["failures"] = keep
    shown = set()
    for r in results:
        for k, f in r["expected"]:
            if (k["contract"], k["obligation"]) not in shown:
                shown.add((k["contract"], k["obligation"]))
                print("KNOWN-FINDING: property=%s %s (contract %s, obligation %s)" % (prop, k["what"], k["contract"], k["obligation"]))
    bad = [r for r in results if r["failures"]]
    confirmed = []
    nat_err = ""
    if bad or compile_errors:
        badsrc = sorted({r["src"] for r in bad})
        if badsrc and not os.environ.get("THV_NOCONFIRM"):
            # one program per contract file: the files may configure the library differently
            with ThreadPoolExecutor(8) as ex:
                nat = dict(zip(badsrc, ex.map(lambda s: native_build(tmp, [s], names[s], tier), badsrc)))
            nat_err = "\n".join(v[1] for v in nat.values() if v[1])
            exes = {s: v[0] for s, v in nat.items()}
            if any(exes.values()):
                per = max(6.0, min(40.0, 240.0 / ((len(bad) + 7) // 8)))
                with ThreadPoolExecutor(8) as ex:
                    cs = list(ex.map(lambda r: confirm(exes[r["src"]], tmp, r, seed, per) if exes[r["src"]] else None, bad[:48]))
                for r, c in zip(bad, cs):
                    if c:
                        confirmed.append((r, c))
    # loops without a bound: what the engine cannot summarise and nothing shows to fail is left to the bounded contracts, and listed
    undecided = [r for r in bad if r["contract"].startswith("unbounded_") and not any(q is r for q, c in confirmed)]
    for r in undecided:
        print("undecided without a bound on the size: contract %s (%s)" % (r["contract"], r["failures"][0]["name"][:60]))
    bad = [r for r in bad if not any(q is r for q in undecided)]
    nobl = sum(r["stats"].get("obl", 0) + r["stats"].get("mem_obl", 0) for r in results)
    ndis = sum(r["stats"].get("discharged", 0) + r["stats"].get("mem_obl", 0) for r in results)
    be = {}
    for r in results:
        for k, v in r["stats"].items():
            if k.startswith("be_"):
                be[k[3:]] = be.get(k[3:], 0) + v
    funcs = demangle(sorted({f for r in results for f in r["funcs"]}))
    lib = sorted({f for f in funcs if f.startswith("theoretica::") or " theoretica::" in f.split("(")[0]})
    bounded = sorted({"%s: %s" % (r["contract"], b) for r in results for b in r["bounded"]})
    assum = sorted({x for r in results for x in r["assumptions"]})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof",
          "coverage": {"obligations": nobl, "discharged": ndis,
                       "checker_cmd": "/verif/check %s --tier %s" % (prop, tier), "trusted_base": TRUSTED,
                       "contracts": len(results), "contracts_discharged": len([r for r in results if not r["failures"] and not r["expected"]]),
                       "contracts_bounded": sorted({r["contract"] for r in results if r["bounded"]}),
                       "contracts_unbounded_proved": sorted({r["contract"] for r in results if not r["bounded"] and not r["failures"] and not r["expected"]}),
                       "bounds": bounded,
                       "contracts_any_size_undecided": sorted("%s: %s" % (r["contract"], r["failures"][0]["name"]) for r in undecided),
                       "loops_summarised_without_bound": sum(r.get("summarised", 0) for r in results),
                       "postconditions": sum(r["stats"].get("obl", 0) for r in results),
                       "memory_safety_obligations": sum(r["stats"].get("mem_obl", 0) for r in results),
                       "paths": sum(r["paths"] for r in results),
                       "discharged_by_backend": be,
                       "solver_seconds": round(sum(r["stats"].get("solver_s", 0) for r in results), 2),
                       "functions_under_contract": lib, "functions_count": len(lib),
                       "per_contract": [{"contract": r["contract"], "paths": r["paths"], "obligations": r["stats"].get("obl", 0),
                                         "discharged": r["stats"].get("discharged", 0), "mem": r["stats"].get("mem_obl", 0), "wall_s": round(r["wall"], 2),
                                         "bounded": r["bounded"]} for r in results],
                       "compile_s": round(t_comp, 2)},
          "assumptions": BASE_ASSUMPTIONS + assum,
          "known_findings": sorted("%s/%s: %s" % (k["contract"], k["obligation"], k["what"]) for r in results for k, f in r["expected"]),
          "violations": len(bad) + len(compile_errors), "wall_s": round(time.time() - t0, 2)}
    ev["known_findings"] = sorted(set(ev["known_findings"]))
    if not a.only:
        with open(os.path.join(edir, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if not bad and not compile_errors:
        if os.path.exists(replay):
            os.unlink(replay)
        print("%s: %d contracts, %d obligations discharged (%d memory safety), %d functions of the library, %.1f s" % (
            prop, len(results), ndis, ev["coverage"]["memory_safety_obligations"], len(lib), time.time() - t0))
        return 0
    with open(replay, "w") as f:
        for src, out in compile_errors:
            f.write("COMPILE FAILURE: contracts %s no longer compile against the source\n%s\n\n" % (src, out[-4000:]))
        for r, c in confirmed:
            f.write("CONFIRMED on the real code (%s): contract %s\n" % (c["how"], r["contract"]))
            f.write("failed obligation: %s %s (%s) at %s %s\n" % (c["failure"]["kind"], c["failure"]["name"], c["failure"]["backend"],
                                                                c["failure"]["where"], c["failure"]["msg"][:500]))
            f.write("exact arithmetic: %s\n" % c.get("exact", ""))
            f.write("inputs:\n%s\noutput of the real code (exit %s):\n%s\n%s\n\n" % (c["inputs"], c["rc"], c["out"], c["err"]))
        for r in bad:
            for x in r["failures"][:10]:
                f.write("OBLIGATION %s: contract %s: %s `%s' at %s (back end %s)\n  %s\n  model %s\n  path %s\n" % (
                    x["verdict"].upper(), r["contract"], x["kind"], x["name"], x["where"], x["backend"], x["msg"], x["model"], x["path"]))
        if nat_err:
            f.write("native replay build failed:\n%s\n" % nat_err[-3000:])
    for r in bad:
        x = r["failures"][0]
        print("failed obligation: contract %s: %s `%s' (%s) at %s %s" % (r["contract"], x["kind"], x["name"], x["verdict"], x["where"],
              "[confirmed]" if any(q is r for q, c in confirmed) else ""))
    for src, out in compile_errors:
        print("contracts %s do not compile" % os.path.basename(src))
    if confirmed:
        print("VIOLATION property=%s replay=%s" % (prop, replay))
    else:
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay))
    return 1


def demangle(fs):
    if not fs:
        return []
    r = subprocess.run(["c++filt"], input="\n".join(fs), stdout=subprocess.PIPE, text=True)
    return r.stdout.split("\n")


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        pr = sys.argv[1] if len(sys.argv) > 1 else "?"
        rp = os.path.join(VERIF, "replays", pr + ".txt")
        try:    # the verifier did not accept the code: reported, with no failing input
            os.makedirs(os.path.dirname(rp), exist_ok=True)
            open(rp, "w").write("the verifier stopped:\n" + traceback.format_exc())
        except OSError:
            pass
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pr, rp))
        rc = 1
    sys.stdout.flush()
    os._exit(rc)

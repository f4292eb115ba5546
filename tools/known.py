"""known-findings.txt: 'fixed:' lines from the fix commits of /repo (property by file touched) after the hand written 'finding:' lines"""
import subprocess, re, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [("autodiff/dual2", "C09"), ("autodiff/dual", "C08"), ("autodiff/multidual", "C10"), ("autodiff/autodiff", "C10"),
       ("transform.h", "C05"), ("complex/quat", "C07"), ("complex/phasor", "C07"), ("complex/", "C06"), ("polynomial/orth", "C26"),
       ("polynomial/", "C11"), ("bit_op", "C12"), ("dataset", "C14"), ("histogram", "C17"), ("regression", "C16"), ("statistics/dist", "C27"),
       ("statistics/", "C15"), ("optimization", "C18"), ("calculus/ode", "C20"), ("calculus/gauss", "C26"), ("calculus/", "C19"), ("interpolation", "C21"),
       ("pseudorandom", "C22"), ("signal", "C23"), ("distance", "C25"), ("core/special", "C24"), ("core/", "C24")]
KW = [(r"LU|solve|determinant|inverse|Cholesky|triangular", "C03"), (r"dynamic matri|resiz|copying into", "C02"), (r"matri|vector|mat_|apply_transform|hermitian|operator", "C01")]
OVERRIDE = {}
try:
    exec(open(V + "/tools/known_override.py").read())
except FileNotFoundError:
    pass
out = ["# finding: property=<id> contract=<c> obligation=<o> <what fails>   (reported as KNOWN-FINDING, recorded and not repaired)",
       "# fixed: property=<id> <commit> <what failed>                       (repaired in /repo; suppresses nothing)"]
p = V + "/tools/findings.txt"
if os.path.exists(p):
    out += [l.rstrip() for l in open(p) if l.strip()]
for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h\t%s"], stdout=subprocess.PIPE, text=True).stdout.strip().split("\n"):
    h, s = l.split("\t")
    if not s.startswith("fix: "):
        continue
    fs = subprocess.run(["git", "-C", "/repo", "show", "--name-only", "--format=", h], stdout=subprocess.PIPE, text=True).stdout
    pr = None
    for k, v in OVERRIDE.items():
        if k in s:
            pr = v
    if pr is None:
        for k, v in MAP:
            if k in fs:
                pr = v
                break
    if pr is None:
        for k, v in KW:
            if re.search(k, s):
                pr = v
                break
    out.append("fixed: property=%s %s %s" % (pr or "C01", h, s[5:]))
open(V + "/known-findings.txt", "w").write("\n".join(out) + "\n")

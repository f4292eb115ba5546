"""Fills DESIGN.md from tools/design_head.md, the evidence of the last run of every check and seeded/*/meta.json."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
"C01": "Every operation is called on containers of arbitrary elements; each element of the result is compared with the textbook sum written in the contract, operands are compared with copies taken before (frame). Non-square shapes, fixed and dynamic types, complex elements, in-place and returning forms.",
"C02": "Histories of construct, write, resize, copy, move with symbolic elements; the contract keeps a ghost copy (a plain array indexed by (i, j)) and compares after every step. Both storage orders (the file is compiled twice). Out of bounds, leak and double free are obligations of the executor.",
"C03": "The defining equations: L U = P A with the shape of the factors, L L^T = A, Leibniz sum, A X = I, A x = b, for symbolic matrices of order 1 to 3 (all pivot orders, by case split on zero tests), order 4 with the stated pivots, and larger given matrices with symbolic right hand sides; singular and malformed inputs must set errno and return NaN. Eigenvalue iterations: one step is the definition, and eigenvectors are fixed points.",
"C04": "The error protocol itself (th_errcode, errno, NaN, exceptions under THEORETICA_THROW_EXCEPTIONS) and, over the library, each function which documents an error: out of domain arguments must be reported, arguments inside must not.",
"C05": "Rotation matrices against Rodrigues' formula and R^T R = 1, det R = 1 for every angle and axis; embedded rotations leave further coordinates alone; projections and cameras against their defining point correspondences; wrong sizes reported.",
"C06": "Field axioms and the definitions through exp, cos, sin, ln, atan2 of parts; branch conditions (principal values) are explicit case splits.",
"C07": "Phasors: equality of real and imaginary parts with the complex operation, phases in range; quaternions: ring axioms, inverse, rotation against Rodrigues' formula.",
"C08": "For all values and derivatives: value part is the real function, dual part is the chain rule written in the contract; domain errors.",
"C09": "As C08 to second order, plus deriv2 and Laplacian of an arbitrary smooth function (symbolic jets: f, f', f'' are uninterpreted).",
"C10": "As C08 for gradients; differential operators on arbitrary fields through symbolic partial derivatives.",
"C11": "Coefficients of each result against the convolution, Horner and long division identities (q d + r = n, deg r < deg d) with symbolic coefficients; trimming and degree.",
"C12": "Machine integers are bit-vectors: integer roots and logarithms for every 8-, 32- and 64-bit input in the stated ranges, factorials and binomials by their recurrences, rotations and 128-bit products by definition over all inputs.",
"C13": "Every double (IEEE() contracts): floor, fract, abs, sgn, min, max, clamp and squares by their definition, NaN and infinities included.",
"C14": "Sums, products, extremes and means of containers. `unbounded_*`: every size up to 2^30, loops summarised, pairwise summation by its recursive contract with a termination measure. Compensated sums in IEEE arithmetic. Element-wise maps touch each element once.",
"C15": "Moments, covariance, correlation, autocorrelation, deviations, error propagation and chi-square by their textbook sums; `unbounded_*` for every size (Welford recurrences by telescoping), bounded contracts for the container types, covariance matrices and z-scores.",
"C16": "Normal equations (the fitted line makes the gradient of the weighted squares vanish), errors and covariance by the textbook formulas; `unbounded_*` for every number of points; the model class for the stated numbers of points.",
"C17": "The ghost is the multiset of inserted values: each bin counts the values in its interval, totals, extremes, Welford mean and variance. Insertion as one step on an arbitrary state is proved for every value; IEEE contracts for bin indices of every double.",
"C18": "Postconditions which hold for any f: the result of bisection/ITP/TOMS lies in the bracket and brackets a sign change within the tolerance or an error is reported; iterative methods: one step is the definition, fixed points, exactness on affine functions; minimisers by the same scheme.",
"C19": "f is an arbitrary function (uninterpreted values at the nodes): each rule equals its weighted sum, exactness by degree (Romberg, Gauss), tables of nodes against orthogonal polynomials. `unbounded_*`: midpoint, trapezoid and Simpson's rules for every number of steps.",
"C20": "One step of each method on an arbitrary right hand side against the Butcher tableau, order conditions by Taylor expansion, solvers: time grid, number of states and last shorter step.",
"C21": "Interpolation conditions (values at nodes, C2 continuity of natural splines, end conditions), Lagrange and Bezier identities for symbolic nodes, domain errors.",
"C22": "Generators against their published recurrences on 64-bit vectors for every state; seeding and discard; samplers against their quantile or acceptance rule with arbitrary uniform draws; Monte Carlo sums against their definition.",
"C23": "Transform against the definition of the discrete Fourier sum with symbolic samples (roots of unity as exact algebraic atoms), inverse, energy, wrong sizes.",
"C24": "The bodies of the elementary functions: x87 paths by instruction contracts and identities, portable paths by Taylor models over whole intervals (error bound proved for each interval) or bounded grids; special values in IEEE arithmetic; gamma and beta by recurrence, reflection and values.",
"C25": "Norms and distances by definition over symbolic vectors (real and complex), metric axioms where they are identities, wrong sizes. `unbounded_*`: every length.",
"C26": "Coefficients generated by the library against explicit formulas (binomial sums), recurrence step for arbitrary coefficients and any index, normalisation constants, nodes and weights by residuals.",
"C27": "Each density against its formula for all parameters in the domain, logarithmic and plain forms, errors outside; normalisation of discrete ones by sums.",
"C28": "Element-wise maps apply the function to each element once, in order, and nothing else (arbitrary function, symbolic elements), for every container kind; algebra of ratios.",
}
def main():
    out = []
    for line in sorted(open(V + "/properties.jsonl")):
        p = json.loads(line)
        i = p["id"]
        e = json.load(open(V + "/evidence/%s.json" % i))
        c = e["coverage"]
        out.append("### %s – %s\n" % (i, p["title"]))
        out.append(T[i])
        out.append("*Size and cost of the last run:* %d contracts (%d bounded), %d library functions under contract, %s obligations, about %d s." % (
            c["contracts"], len(c["contracts_bounded"]), c["functions_count"], format(c["obligations"], ","), round(e["wall_s"])))
        srcs = sorted(glob.glob(V + "/contracts/%s_*.cpp" % i))
        out.append("*Contracts:* " + ", ".join("`%s`" % os.path.basename(s) for s in srcs) + ".")
        bs = []
        for b in c["bounds"]:
            t = b.split(": ", 1)[-1].strip().rstrip(",")
            if t not in bs:
                bs.append(t)
        if bs:
            out.append("*Bounds:* " + "; ".join(bs) + ".")
        out.append("")
    seeds = ["| id | property | what it breaks | needs | check |", "|---|---|---|---|---|"]
    res = json.load(open(V + "/tools/seed_results.json"))
    for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
        m = json.load(open(d))
        i = os.path.basename(os.path.dirname(d))
        seeds.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], res.get(i, "caught at once")))
    t = open(V + "/tools/design_head.md").read()
    t = t.replace("@@PROPS@@", "\n".join(out)).replace("@@SEEDS@@", "\n".join(seeds))
    open(V + "/DESIGN.md", "w").write(t)
main()

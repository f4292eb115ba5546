OVERRIDE = {"math_exception": "C04", "binomial_coeff": "C12", "pad2": "C12", "isqrt and icbrt": "C12", "floor (and fract)": "C13", "solving a system with a zero": "C03",
            "decompose_lu left": "C03", "ilog2": "C12", "pow with": "C12"}

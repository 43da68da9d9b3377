CONFIG = {
    "rule": "A case draws operands of one operation in a numeric regime (zero, 1e-12.., around implementation thresholds, moderate, near and at pi, beyond pi), evaluates every Jacobian "
            "of it through jacobian() and evalWithJacobians(), and compares it with the closed form or with a fourth-order central difference of the long-double reference; "
            "for log and box-minus the product with the reference Jacobian of exp must be the identity. Every case is non-trivial.",
    "seconds": 9, "cases": 3000000,
    "assumptions": ["norm and normalized are not differentiated at zero, nor acos at +-1, nor is anything divided by zero",
                    "the exp Jacobian of rotation vectors of length t in (1e-9, 1e-3) is only required to be accurate to 1e-15/t"],
}

CONFIG = {
    "rule": "A case draws vectors and scalars (zero, 1e-12.., unit, up to 1e3; divisors and normalised vectors bounded away from zero), and evaluates every operator "
            "with every kind of scalar operand (library scalar, lvalue and rvalue numbers, scalar expressions), including nested combinations, "
            "against extended-precision arithmetic. Non-trivial: not all operands are zero.",
    "seconds": 9, "cases": 3000000,
    "assumptions": ["division by zero and normalisation of zero vectors are outside the domain"],
}

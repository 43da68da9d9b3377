CONFIG = {
    "rule": "A case draws one to three rotations (matrix, quaternion of either sign, angle-axis; angles zero, 1e-12..1e-1, "
            "series thresholds, moderate, near and exactly pi, beyond pi and negative for angle-axis; coordinate, nearly "
            "coordinate and random axes; double and float) and a vector of magnitude 0..1e3, and compares a library "
            "expression with the long-double reference model. Non-trivial: at least one rotation is not the identity.",
    "seconds": 8, "cases": 3000000,
    "assumptions": ["inputs are valid rotations up to rounding", "tolerances: 1e-13 absolute per rotation entry in double, 2e-6 in float, scaled by the vector's norm"],
}

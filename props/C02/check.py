CONFIG = {
    "rule": "A case draws rigid transforms (4x4 matrix; quaternion and translation, either quaternion sign; all angle regimes; "
            "translations 0..1e3), rotations and vectors, and compares library expressions, part reads, conversions and assignments "
            "with the long-double reference model. Non-trivial: at least one transform is not the identity.",
    "seconds": 9, "cases": 3000000,
    "assumptions": ["inputs are valid transforms up to rounding", "tolerance 1e-13 times (1 + size of the translations involved)"],
}

CONFIG = {
    "rule": "A case draws a rotation vector, twist, rotation or rigid transform (angles 0, 1e-12.., 1e-160, series thresholds, moderate, "
            "within 1e-12 of pi, pi, up to several turns; all representations; translations 0..1e3; double and float) and checks exp/log "
            "against long-double exp/log, with small angles compared relative to the angle. Non-trivial: the rotation angle is not zero.",
    "seconds": 10, "cases": 4000000,
    "assumptions": ["inputs are valid up to rounding", "at a rotation by pi either of the two logarithms is accepted"],
}

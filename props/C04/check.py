CONFIG = {
    "rule": "A case draws two elements of one space (rotations and rigid transforms in every pair of representations, points, vectors, "
            "compounds) and a tangent vector (zero, tiny, thresholds, up to just below pi) and checks the box-plus/box-minus laws and the "
            "reference values. Pairs are independent, equal, or a tiny or near-pi step apart. Non-trivial: the two elements differ.",
    "seconds": 9, "cases": 3000000,
    "assumptions": ["at a difference of exactly pi either sign of the axis is accepted"],
}

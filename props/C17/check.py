CONFIG = {
    "rule": "A case draws an element and a second one at a chosen distance (0 to 1000 times the precision, on either side of it, in one coordinate or a random direction), held in any two ways (12 for rotations, 7 for transforms, "
            "owned / mapped / framed vectors, points, twists and scalars, single precision), and a precision (default, 1e-1 to 1e-10). The distance of the two held elements is computed in long double: the largest tangent coordinate for "
            "rotations and transforms, relative to the smaller norm for vectors, points and scalars. isApprox is asked both ways, through expressions and reflexively; isZero at distances around the precision. "
            "Pairs within 3 % of the precision, or where coordinate and norm disagree, or where rounding could decide, are not judged. Non-trivial: judged.",
    "seconds": 12, "cases": 3000000,
    "assumptions": ["closeness of vectors, points and scalars is relative, as documented (see Eigen's isApprox)"],
}

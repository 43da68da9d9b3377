CONFIG = {
    "rule": "A case asks one of 26 leaf types (all representations, framed or not, single precision, row-major) for 20 to 60 random elements in one of four ways (Random(), Random<T>{} evaluated, assigned, kept), and requires valid, finite, pairwise different "
            "elements; or for 8000 random rotations or transforms, which must hit each of 192 equal parts of the rotation group, each of 24 equal parts with half to twice its share, and have the angle distribution of evenly spread rotations within 0.06 "
            "(a correct generator fails with probability below 1e-12); or for 3000 random vectors, which must take all sign patterns with no tied coordinates; or evaluates expressions containing Random<T>{}. "
            "Or it builds a rotation vector from an angle (0, tiny, near multiples of pi, up to 1000) and an axis of length from 1e-300 to 1e300 (1e-36 to 1e36 in single precision) given as a vector, expression, row, segment or the object itself. Non-trivial: all but angle 0.",
    "seconds": 14, "cases": 3000000,
    "assumptions": ["random numbers come from the library's generator, seeded by the harness"],
}

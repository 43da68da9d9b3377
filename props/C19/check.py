CONFIG = {
    "flags": ["-O1"],
    "rule": "Random histories of 1 to 10 steps on a leaf over external memory (37 kinds: rotations, translations, relative rotations, points, twists, transforms over contiguous, row-major, strided, const and quaternion maps, and over blocks of fixed, "
            "row-major and dynamic matrices; framed or not): change the memory; read it through one of 8 to 17 expressions (value, conversion, Jacobians forward, dynamic, dynamic reverse and numerical); assign one of 6 to 10 expressions, among them ones "
            "reading the leaf itself; assign from an owning leaf or from a leaf of the same kind over other memory; write through a copy; take an owning copy. An owning leaf with the same numbers goes through the same steps: all results must agree to rounding, "
            "the mapped numbers must be the owning leaf's, and every other number of the surrounding memory must keep its bits.. Non-trivial: at least two steps.",
    "seconds": 12, "cases": 3000000,
    "assumptions": ["sizes within an ordinary range (angles below 3, lengths below 50)", "tolerance 1e-12 on values, 1e-11 on Jacobians"],
}

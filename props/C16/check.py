CONFIG = {
    "flags": ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "env": {"ASAN_OPTIONS": "detect_stack_use_after_return=1:detect_leaks=0"},
    "rule": "Random histories of 1 to 20 steps on a pair of transforms or twists of one of 14 kinds (matrix column- or row-major, compact; owned, over Eigen::Map inside a guarded buffer, over a Block of a larger matrix; framed or not): "
            "assign one of 40 expressions to the rotation or translation part (leaves of all representations, products, inverses, exponentials, expressions reading the target itself, parts of other objects, proxies), write through the "
            "block getters, read the parts of the object and of products and inverses of it, keep part expressions across writes, copy, exchange parts. After each write every stored number outside the part (guard memory included) must be bit-identical, "
            "and the part must equal the expression's long-double reference value. Constructors from Eigen objects and expressions likewise. Under AddressSanitizer. Non-trivial: at least two steps.",
    "seconds": 14, "cases": 400000,
    "assumptions": ["framed twists have no part accessors, and framed transforms cannot be constructed from framed parts: the library does not offer them", "tolerance 1e-12 relative to the operands; rotations are replaced once their own deviation from orthonormality exceeds 1e-12"],
}

CONFIG = {
    "flags": ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "env": {"ASAN_OPTIONS": "detect_stack_use_after_return=1:detect_leaks=0"},
    "rule": "Random histories of up to 150 steps over proxies of nine kinds (rotations, transforms, translations, tangent vectors, points, scalars), reference proxies, Dynamic objects, and leaves: build a new expression of "
            "random operands (70 operations, nested static expressions, plain numbers), bind it to a new or existing proxy, copy / swap / move / drop proxies, change leaves, evaluate and differentiate (forward, dynamic, "
            "evalWithJacobians w.r.t. leaves, proxies and reference proxies; reverse mode w.r.t. all leaves). Also long chains and graphs in which every node is shared. Each answer is compared with a model graph "
            "evaluated in long double, derivatives by high-order differences at the target node. Under AddressSanitizer. Non-trivial: at least 3 operations, 2 answered questions, and a change of a leaf or a rebinding.",
    "seconds": 22, "cases": 200000,
    "assumptions": ["questions whose answer lies outside an operation's regular domain, or which the reference cannot answer to tolerance, are skipped within the history"],
}

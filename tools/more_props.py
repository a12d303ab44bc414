_PURE = ("a pure function of its arguments with no thread, clock, I/O, randomness, user callback or history to schedule or fault; "
         "deterministic simulation has nothing to decide there")
prop("C30", "B-spline bases, curves and surfaces evaluate to their definition",
     "Basis functions are non-negative, sum to one and vanish outside their support, and curves and surfaces evaluate to the "
     "combination of their poles, inside the bounding box of the poles, for every parameter.",
     ["inputs"], "all knot vectors, degrees, poles and parameters",
     "tests sample a few bases and points",
     [B + "bspline.py"], [m("basis evaluation", B + "bspline.py")], claim=_PURE)
prop("C31", "Surface and curve intersections lie on both operands",
     "Every reported intersection point lies on both operands within the tolerance and every transversal crossing is reported.",
     ["inputs"], "all pairs of surfaces and curves", "tests intersect one or two pairs",
     [B + "isec_surf_surf.py", B + "isec_curve_surf.py"], [m("intersection search", B + "isec_surf_surf.py")],
     claim=_PURE + "; the module is also unfinished (its own test only plots)")
prop("C32", "Element quality measures match their geometric definition",
     "Edge ratios, volumes, gamma and flatness of an element equal their geometric definition independently of node order.",
     ["inputs"], "all element shapes", "tests check a few elements",
     [G + "heal_mesh.py"], [m("shape measures", G + "heal_mesh.py:8")], claim=_PURE)

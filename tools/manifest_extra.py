def claimed(B):
    ORC = B + "judged against the textbook sum in the reference model; "
    return {
 "C04": ("exhaustive enumeration of lengths x implementations x windows x basis inputs x prior output contents against the reference model", ORC + "all even lengths within the bound; assumes linearity (C18)."),
 "C05": ("exhaustive enumeration of lengths x implementations x windows x basis spectra x prior contents x accumulation orders against the reference model", ORC + "all even lengths within the bound; assumes linearity (C18)."),
 "C06": ("exhaustive enumeration of stream histories (block counts x encode/decode orders) x lengths x windows", B + "judged against the identity times the documented factor; all histories within the bound."),
 "C07": ("exhaustive enumeration of lengths x pairs x both orders x basis inputs", B + "judged against the identity times the pair's factor."),
 "C08": ("exhaustive enumeration of composition trees of the public algorithms, with mock components over all scratch demands", ORC + "all trees within the depth and length bound."),
 "C09": ("exhaustive enumeration of instances x operations x scratch contents x scratch sizes", B + "bitwise comparison with the result on zeroed exact scratch."),
 "C10": ("exhaustive enumeration of buffer length x scratch length combinations per instance x operation, in release and checked builds", B + "acceptance must match exactly the documented lengths."),
 "C11": ("exhaustive enumeration of instances x operations x valid and rejected calls under a memory monitor (guard pages, fenced heap, checked build, Miri)", B + "every access outside the supplied slices that crosses a block edge faults; accesses inside a block are monitored by the checked build and by Miri at small lengths."),
 "C12": ("explicit-state exploration of planner request histories, with a fault at every step of planning", B + "every request sequence up to the depth over colliding alphabets, and every abort point of a request, each answer compared with a fresh planner's."),
 "C13": ("explicit-state exploration of plan / drop / use histories against an ownership model", B + "every step compared with the model (identity, drop counts, setup work)."),
 "C14": ("stateless exploration of thread interleavings under a controlled scheduler (preemption bounded)", B + "real threads on shared instances, scheduling points at every arithmetic operation of a user type and, for f32/f64 at small lengths, at every machine instruction; every schedule up to the bound compared with the solo results; Miri adds data-race detection on free-running threads."),
 "C15": ("exhaustive enumeration of constructor argument combinations in release and checked builds", B + "acceptance must match the documented preconditions; accepted instances must compute the right transform."),
 "C16": ("exhaustive enumeration of planned instances x operations x call histories under an allocation monitor", B + "no heap event in any explored call."),
 "C17": ("exhaustive enumeration of lengths with an operation-counting element type", B + "operation count and scratch size against c n log n and c n at every length within the bound."),
 "C18": ("exhaustive enumeration of lattice, deviation and scaling alphabets per instance", B + "bitwise equivariance under powers of two and sign, additivity against the reference map on every enumerated input."),
 "C19": ("exhaustive length x basis enumeration over user-defined element types", ORC + "packed, double-double, tagged and fixed-point types."),
 "C20": ("exhaustive enumeration of window sizes and kinds", B + "formula, symmetry, power complementarity and scale at every size within the bound."),
 "C21": ("exhaustive enumeration of the boundary lengths in a range with a bounded error monitor", ORC + "only the listed lengths; error norms against the stated growth."),
 "C22": ("exhaustive enumeration of call histories on one instance (operations x data x rejected calls x every abort point)", B + "bitwise comparison of every call with a fresh instance."),
 "C23": ("exhaustive enumeration of instances and mock components with all scratch demands", B + "reported lengths constant, exact scratch accepted and sufficient."),
 "C24": ("exhaustive enumeration of lengths, and of request and drop histories, under a heap monitor with an operation-counting element type", B + "bytes and operations against c n and c n log n at every length within the bound, growth along chains of lengths, heap balance zero after every explored history."),
    }

_T = "contract-based deductive verification: VCs generated from the repository source by symbolic execution against sidecar contracts, discharged by z3; counterexample replay and contract conformance on the real code"
_N = "Proved for all sizes/inputs in real arithmetic relative to assumed contracts of torch/numpy operators; floating-point rounding and the operators themselves are only exercised by the bounded conformance part. "
LEVELS = {}
LEVELS["P01"] = ("proof", _T, "truncate_sht and helpers proved for all integers; module call sites bounded. Trusts vp/ generator and z3.")
LEVELS["P02"] = ("proof", _T, _N + "Tensor ranks enumerated (1-4, leading 0-3).")
LEVELS["P03"] = ("proof", _T, _N + "torch.fft assumed to satisfy the DFT contract; ranks enumerated.")
LEVELS["P04"] = ("proof", _T, _N + "Loop invariants on both recurrence loops; the textbook recurrence as definition of the functions; recurrence-to-closed-form link bounded (oracle).")
LEVELS["P05"] = ("proof", _T, _N)
LEVELS["P06"] = ("proof", _T, _N + "Forward/inverse proved equal to the quadrature projection / harmonic series for all sizes, cut-offs and fields; the round trip on band limits follows from rule exactness and Legendre orthogonality and is bounded-checked.")
LEVELS["P07"] = ("proof", _T, _N + "Forward/inverse vector transforms proved equal to the documented projections; round trip bounded-checked.")
LEVELS["P08"] = ("proof", _T, _N + "The transforms inside are used through their P06 contract.")
LEVELS["P21"] = ("proof", _T, _N + "The inverse transform is used through its P06 contract, pow is uninterpreted, the distribution of the draw is torch's; sample moments bounded.")
LEVELS["P09"] = ("proof", _T, _N + "torch.searchsorted by contract (bracketing position in a sorted sequence); grid nodes by contract (strictly increasing in [0,pi]).")
LEVELS["P10"] = ("proof", _T, "Decorator proved to refine the undecorated function in every cache state and for every caller behaviour (ghost store and aliasing), from the documented contracts of functools.lru_cache and copy.deepcopy; purity of the cached functions comes from their own contracts (P04, P05, P12); histories on the real code bounded.")
LEVELS["P19"] = ("proof", _T, _N + "SPMD semantics of torch.distributed collectives by contract (rank-generic); autograd by the recorded backward; group sizes, ranks and extents unbounded; bfloat16 rounding bounded only.")
LEVELS["P20"] = ("proof", _T, _N + "Relational: transforms, quadrature, resampling and spectral convolution proved equal to the serial module for every process grid and size from the P19 contracts of the primitives; distributed DISCO convolutions bounded.")
_C = "contract-based deductive verification: clang AST of the repository's C++ kernels executed symbolically function by function against contracts and loop invariants (and the Python callers likewise), obligations discharged by z3; counterexample replay and contract conformance on a scratch build of the real extension"
_CN = "Kernels verified for all sizes in real arithmetic on the <float> instantiation, OpenMP pragmas dropped (iterations run in order); torch C++ tensor operations by contract. "
LEVELS["P13"] = ("proof", _C, _CN + "Both preprocessing kernels and operators; precondition: entries in range, (ker,row,col) distinct.")
LEVELS["P14"] = ("proof", _C, _CN + "Kernel, dispatcher and operator; Python reference path and layers bounded where not listed in evidence.")
LEVELS["P15"] = ("proof", _C, _CN + "Kernel, adjoint lemma, dispatcher and operator; autograd wrappers bounded where not listed in evidence.")
LEVELS["P16"] = ("proof", _C, _CN + "Gather and upsample kernels proved to compute the weighted softmax average (exp(a+b)=exp(a)exp(b), exp>0), head folding and operator wrapper; non-empty neighbourhoods and positive weights as precondition; Python layer bounded.")
LEVELS["P18"] = ("proof", _C, _CN + "Conversions (compiled and fallback), their gradients, the compiled permutations, head folding and every operator wrapper (C++ and Python, forward and backward); permute/contiguous/clone by contract with ghost storage and memory format; layer call sites bounded.")
_B = "contract conformance on the real code (bounded); deductive contracts in progress"
for _p in ("P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18", "P19", "P20"):
    LEVELS.setdefault(_p, ("exploration", _B, "Bounded: postconditions evaluated on the real compiled code against independent oracles; not proved."))

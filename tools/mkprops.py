"""Writes properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe: a["observe_at"] = observe
    if state: a["state"] = state
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

T = "torch_harmonics/"
prop("P01", "Transform cut-offs are triangular and equal the documented defaults",
 "For every supported grid and every grid size, the number of degrees and the number of orders a transform keeps are equal to each other and to the smaller of the requested (or default) degree count and the requested (or default) order count. The defaults are N degrees on Legendre-Gauss, N-1 on Lobatto and floor((N+1)/2) on equiangular grids of N latitudes, and floor(M/2)+1 orders for M longitudes; an unknown grid name is an error when a default is needed.",
 ["inputs", "configurations"], "all nlat >= 1, nlon >= 1, all positive explicit cut-offs or none, all grid names",
 "Tests sample a few sizes; odd/even and boundary sizes where floor and min switch are unbounded.",
 [T+"truncation.py", T+"sht.py", T+"spectral_convolution.py"], [("truncate_sht", T+"truncation.py"), ("_truncate_lmax", T+"truncation.py"), ("_truncate_mmax", T+"truncation.py")], ["returned pair; lmax/mmax of every transform module"])
prop("P02", "Domain decomposition is balanced, complete, order preserving and invertible",
 "Splitting an extent over any number of parts not larger than it gives exactly that many positive sizes that add up to the extent, differ by at most one and are non-increasing; more parts than elements is refused. Splitting a tensor along any dimension gives consecutive slices of those sizes in order, and flattening all leading dimensions, zero-padding them to a minimum, then undoing it, returns the original tensor element for element with the padding being zero.",
 ["inputs", "configurations"], "all extents, part counts, tensor ranks/shapes, minimum sizes and numbers of trailing dimensions",
 "The space of (extent, parts) pairs and shapes is unbounded and remainder handling only shows for specific pairs.",
 [T+"distributed/primitives.py"], [("compute_split_shapes", T+"distributed/primitives.py"), ("split_tensor_along_dim", T+"distributed/primitives.py"), ("flatten_and_pad_leading_dims", T+"distributed/primitives.py"), ("unpad_and_unflatten_leading_dims", T+"distributed/primitives.py")])
prop("P03", "Longitudinal Fourier helpers truncate, zero-pad and enforce real signals",
 "The forward helper returns exactly the requested number of Fourier modes: the true discrete Fourier modes of the signal up to the Nyquist mode and zeros above it. The inverse helper returns the real signal of the requested length whose modes are the given ones, ignoring the imaginary part of the constant mode and, for even lengths, of the Nyquist mode, dropping surplus modes and treating missing ones as zero, along any dimension and for any leading dimensions.",
 ["inputs", "configurations"], "all lengths, mode counts, dimensions, normalisations and signals",
 "Parity of the length and the relation of mode count to length select different paths; tests try few combinations.",
 [T+"fft.py", T+"utils.py"], [("rfft", T+"fft.py"), ("irfft", T+"fft.py"), ("_pad_dim_right", T+"fft.py")])
prop("P04", "Associated Legendre tables equal the mathematical functions in every norm",
 "The table of associated Legendre functions holds, for every order, degree and node, the orthonormalised function value (zero when the order exceeds the degree), with the phase (-1)^m exactly when requested, scaled as documented for the orthonormal, Schmidt and un-normalised conventions, with the inverse tables scaled reciprocally. The derivative table holds, for every order, degree and node, the colatitude derivative of that function and the function times m over sin(theta), in the same conventions.",
 ["inputs", "configurations"], "all mmax, lmax >= 1 (mmax may exceed lmax), all nodes in [-1,1], all norms, forward/inverse, with/without phase",
 "Recurrences are inductive in the degree; an error at one (m,l), norm or phase combination is invisible to round-trip tests in the default norm.",
 [T+"legendre.py"], [("legpoly", T+"legendre.py"), ("_precompute_legpoly", T+"legendre.py"), ("_precompute_dlegpoly", T+"legendre.py"), ("clm", T+"legendre.py")])
prop("P05", "Quadrature nodes and weights integrate exactly to the documented degree",
 "For every number of nodes each rule returns increasing nodes inside the interval with weights that integrate every polynomial up to the rule's degree exactly (2N-1 Legendre-Gauss, 2N-3 Lobatto, N-1 Clenshaw-Curtis, 1 trapezoidal), on any interval [a,b]; latitudes run from north to south with matching weights, longitudes are equispaced from 0. The sphere integrator returns the weighted sum over the last two dimensions, so a constant integrates to 4 pi times it, or to itself when normalised.",
 ["inputs", "configurations"], "all node counts (n>=2; n>=1 for Gauss), intervals, grids and fields",
 "Exactness must hold for all n and all polynomials, including parity-specific branches of the weight formulas.",
 [T+"quadrature.py"], [("clenshaw_curtiss_weights", T+"quadrature.py"), ("lobatto_weights", T+"quadrature.py"), ("legendre_gauss_weights", T+"quadrature.py"), ("trapezoidal_weights", T+"quadrature.py"), ("precompute_latitudes", T+"quadrature.py"), ("precompute_longitudes", T+"quadrature.py"), ("QuadratureS2", T+"quadrature.py")])
prop("P06", "Scalar transforms compute the harmonic coefficients and invert on band limits",
 "For every field, grid, truncation, norm and phase option, the forward scalar transform returns the quadrature projection of the field on each retained spherical harmonic and zero for orders above the degree, and the inverse returns the harmonic series at every grid point, for any leading dimensions. On fields band-limited below the cut-off the inverse undoes the forward transform; wrongly sized inputs are rejected.",
 ["inputs", "configurations"], "all grids, sizes, cut-offs, norms, phase options, leading dimensions and fields",
 "The contract is an equality for every field and every configuration; tests sample random fields on a few grids.",
 [T+"sht.py", T+"fft.py", T+"legendre.py", T+"quadrature.py"], [("RealSHT", T+"sht.py"), ("InverseRealSHT", T+"sht.py")])
prop("P07", "Vector transforms compute spheroidal/toroidal coefficients and invert",
 "For every tangential field, grid, truncation, norm and phase option, the forward vector transform returns the quadrature projection on the gradient (spheroidal) and rotated-gradient (toroidal) harmonics divided by l(l+1), with the degree-zero coefficient zero, and the inverse returns the corresponding vector harmonic series at every grid point. On band-limited fields the inverse undoes the forward transform, and a gradient field has no toroidal part.",
 ["inputs", "configurations"], "all grids, sizes, cut-offs, norms, phase options, leading dimensions and fields",
 "Sign and component conventions interact with complex parts; cancelling errors survive round-trip tests.",
 [T+"sht.py", T+"legendre.py"], [("RealVectorSHT", T+"sht.py"), ("InverseRealVectorSHT", T+"sht.py")])
prop("P08", "Spectral convolution multiplies per degree and mixes channels within groups only",
 "For every input, weight and grouping, the layer's output is the inverse transform of the degree-wise channel contraction of the input's coefficients (bias coefficients times the channel integral added first when enabled), with the same weight for all orders of a degree. Output channels depend only on the input channels of their own group, input and output grids may differ, and the result has the input's floating type.",
 ["inputs", "configurations"], "all grids, shapes, channel counts, group counts, weights and inputs",
 "Group/channel index arithmetic and l-versus-m axis mix-ups need non-square, multi-group configurations and non-random weights to show.",
 [T+"spectral_convolution.py"], [("SpectralConvS2.forward", T+"spectral_convolution.py"), ("SpectralConvS2._contract_lwise", T+"spectral_convolution.py")])
prop("P09", "Resampling is the periodic piecewise interpolation and reproduces its nodes",
 "Resampling to the same grid returns the input unchanged; otherwise every output value in bilinear mode is the interpolation, linear in colatitude and then in longitude, of the enclosing input nodes, periodic in longitude and extended to the poles by the mean of the adjacent ring when the output needs it, so constants are reproduced and output nodes that coincide with input nodes get the input value. In the spherical mode each of the two steps uses spherical linear interpolation weights of the angle between the two values, with the linear weights in the small-angle limit.",
 ["inputs", "configurations"], "all pairs of grids and sizes (at least two points per direction) and all fields",
 "Wrap-around, coincident nodes and pole handling occur only for particular size/grid pairs.",
 [T+"resample.py"], [("ResampleS2.__init__", T+"resample.py"), ("ResampleS2._upscale_longitudes", T+"resample.py"), ("ResampleS2._upscale_latitudes", T+"resample.py"), ("ResampleS2._expand_poles", T+"resample.py")])
prop("P10", "Cached precomputation never changes any result",
 "Whatever was computed before, and whatever the caller did to previously returned objects (including modifying them in place), every precomputation routine returns the same values as a fresh process would for the same arguments. Arguments that differ in value or in type never share a result; only the filter-basis factory hands out one shared object per argument set, as documented.",
 ["histories", "inputs"], "all sequences of calls, argument values and in-place modifications of results and arguments",
 "It is a statement over all call histories; tests run each routine once or twice.",
 [T+"cache.py", T+"legendre.py", T+"quadrature.py", T+"disco/convolution.py", T+"utils.py"], [("lru_cache", T+"cache.py"), ("_precompute_legpoly", T+"legendre.py"), ("precompute_latitudes", T+"quadrature.py"), ("_precompute_convolution_tensor_s2", T+"disco/convolution.py")])
prop("P11", "Filter bases have the documented size, support and values",
 "For every kernel shape and basis type, the number of basis functions is the documented one and evaluating the basis lists, for every basis function, exactly the points inside its support within the cut-off radius, each once, with the documented basis value there. The piecewise linear bases are non-negative partitions on their collocation grid with periodic angular direction, and the harmonic, Zernike and Fourier-Bessel functions equal their closed forms.",
 ["inputs", "configurations"], "all kernel shapes, cut-off radii and evaluation points inside and outside the support",
 "Index sets depend on where a point falls relative to the collocation grid; boundary positions are measure zero in tests.",
 [T+"filter_basis.py"], [("PiecewiseLinearFilterBasis", T+"filter_basis.py"), ("HarmonicFilterBasis", T+"filter_basis.py"), ("ZernikeFilterBasis", T+"filter_basis.py"), ("get_filter_basis", T+"filter_basis.py")])
prop("P12", "The DISCO filter tensor samples the rotated filters with quadrature weights",
 "For every pair of grids, cut-off and basis, the sparse filter tensor contains for each output latitude exactly the input points inside the cut-off of the output point at longitude zero, valued by the basis at the geodesic distance and local bearing, times the input quadrature weight, normalised in the documented mode; indices are in range and unique. Normalised filters reproduce constants in the modes that promise it, and the transposed tensor swaps the roles of the grids.",
 ["inputs", "configurations"], "all input/output grids, sizes, cut-offs, bases and normalisation modes",
 "Geometry near the poles, the date line and at the cut-off depends on the exact sizes.",
 [T+"disco/convolution.py", T+"filter_basis.py"], [("_precompute_convolution_tensor_s2", T+"disco/convolution.py"), ("_normalize_convolution_tensor_s2", T+"disco/convolution.py")])
prop("P13", "Preprocessing of the sparse filter tensor loses and merges nothing",
 "For every sparse filter tensor listed by increasing output row, as the precomputation lists it, preprocessing returns the same multiset of (filter, output row, input column, value) entries sorted by filter and row, together with row offsets such that every segment contains all entries of exactly one (filter, row) pair and every pair with entries appears in exactly one segment. The optional dense packing holds the same entries.",
 ["inputs"], "all sparse tensors with entries in row order and filters in any order, including rows, filters or whole tensors without entries",
 "Segment boundaries depend on which rows are empty; tests use full tensors from real grids.",
 [T+"disco/optimized/disco_helpers.cpp", T+"disco/optimized/disco_helpers.h"], [("preprocess_psi", T+"disco/optimized/disco_helpers.cpp"), ("preprocess_psi_kernel", T+"disco/optimized/disco_helpers.h"), ("pack_psi_dense", T+"disco/optimized/disco_helpers.cpp")])
prop("P14", "DISCO convolution computes the filter contraction exactly on every backend",
 "For every filter tensor, input and admissible grid pair, each output value is the sum over the filter's entries of the entry times the input at the entry's latitude and at its longitude shifted by the output longitude, identically for the compiled CPU kernel and the reference implementation. The layer then mixes kernel and input channels by the weight within each group and adds the bias, and the transposed layer applies the corresponding adjoint contraction.",
 ["inputs", "configurations"], "all sparse tensors, shapes, longitude ratios, batch/channel/group counts, dtypes",
 "Blocking, specialised longitude strides and wrap-around each have their own code path selected by sizes.",
 [T+"disco/optimized/kernels_cpu/disco_cpu.h", T+"disco/optimized/kernels_cpu/disco_cpu_fwd.cpp", T+"disco/convolution.py", T+"disco/kernels_torch/disco_torch.py", T+"disco/optimized/disco_optimized.py"], [("disco_fwd_cpu", T+"disco/optimized/kernels_cpu/disco_cpu.h"), ("_disco_s2_contraction_torch", T+"disco/kernels_torch/disco_torch.py"), ("DiscreteContinuousConvS2.forward", T+"disco/convolution.py")])
prop("P15", "DISCO gradients are the exact adjoint of the forward contraction",
 "For every filter tensor, shape and pair of vectors, the backward kernel is the exact transpose of the forward contraction, so inner products agree and gradients with respect to inputs, weights and bias equal the mathematical derivatives. This holds for the convolution and the transposed convolution, through the compiled CPU kernels and the reference implementation.",
 ["inputs", "configurations"], "all sparse tensors, shapes, longitude ratios and vectors",
 "Adjointness is an identity over all vectors; gradient tests sample few shapes.",
 [T+"disco/optimized/kernels_cpu/disco_cpu.h", T+"disco/optimized/kernels_cpu/disco_cpu_bwd.cpp", T+"disco/optimized/disco_optimized.py", T+"disco/kernels_torch/disco_torch.py"], [("disco_bwd_cpu", T+"disco/optimized/kernels_cpu/disco_cpu.h"), ("backward formulas", T+"disco/optimized/disco_optimized.py"), ("_disco_s2_transpose_contraction_torch", T+"disco/kernels_torch/disco_torch.py")])
prop("P16", "Spherical attention is the quadrature-weighted softmax over its neighbourhood",
 "For every query, key and value field, each output point is the average of the values over the input points of its neighbourhood, weighted by the exponentiated query-key product (any magnitude, scaled as documented) times the input quadrature weight and normalised to one; the neighbourhood is the set of input points within the cut-off of the output point, rotated with the output longitude. The compiled kernel, the reference implementation, downsampling and upsampling variants and multiple heads all agree with this definition.",
 ["inputs", "configurations"], "all grids with integer longitude ratio either way, head and channel counts, cut-offs, input magnitudes",
 "Channel blocking, heads and up/down-sampling select code by size; overflow behaviour needs large magnitudes.",
 [T+"attention/attention.py", T+"attention/kernels_torch/attention_torch.py", T+"attention/optimized/attention_optimized.py", T+"attention/optimized/kernels_cpu/attention_cpu_fwd.cpp"], [("AttentionS2.forward", T+"attention/attention.py"), ("NeighborhoodAttentionS2.forward", T+"attention/attention.py"), ("forward kernels", T+"attention/optimized/kernels_cpu")])
prop("P17", "Attention gradients equal the derivatives of the attention output",
 "For every input and output gradient, the gradients of query, key and value (and of the projection parameters) returned by the compiled and reference backward passes equal the analytic derivatives of the quadrature-weighted softmax average. Quantities that do not require gradients do not alter the others' gradients.",
 ["inputs", "configurations"], "all grids, head/channel counts, cut-offs, inputs and output gradients",
 "Hand-written backward kernels with blocking must match for all shapes; tests check a few with loose tolerances.",
 [T+"attention/kernels_torch/attention_torch.py", T+"attention/optimized/attention_optimized.py", T+"attention/optimized/kernels_cpu/attention_cpu_bwd.cpp"], [("backward kernels", T+"attention/optimized/kernels_cpu"), ("backward formulas", T+"attention/kernels_torch/attention_torch.py")])
prop("P18", "Memory-layout conversion and head folding are exact, inverse permutations",
 "Converting between channels-first and channels-last layout, and folding attention heads into the batch or unfolding them, moves every element to its one documented place, changes no value, and the conversion pairs are inverse to each other for every shape, head count and memory format. Gradients pass through as the inverse permutation.",
 ["inputs", "configurations"], "all shapes, head counts, strides and dtypes",
 "Tiled permutation code depends on remainders of sizes by the tile size.",
 [T+"attention/_layout.py", T+"attention/optimized/kernels_cpu/attention_cpu_permute.cpp", T+"attention/attention.py"], [("layout ops", T+"attention/_layout.py"), ("permute kernels", T+"attention/optimized/kernels_cpu/attention_cpu_permute.cpp")])
prop("P19", "Distributed redistribution moves each element once, with adjoint backward",
 "For every process grid, extent and tensor, redistributing a dimension, gathering, scattering, reducing, reduce-scattering and halo exchange (of at least one row, at most a rank's rows) produce on every rank exactly the slice or sum of the global tensor their contract names, including uneven splits, and redistributing back restores the original. The backward pass of each is the adjoint redistribution, and with one process each is the identity.",
 ["inputs", "configurations", "schedules"], "all group sizes and ranks, all extents (even and uneven), dimensions and tensors",
 "Uneven splits and rank-dependent slices give combinations tests do not reach; in this repository they also need several processes.",
 [T+"distributed/primitives.py", T+"distributed/utils.py"], [("_transpose", T+"distributed/primitives.py"), ("_gather", T+"distributed/primitives.py"), ("_reduce_scatter", T+"distributed/primitives.py"), ("_split", T+"distributed/primitives.py"), ("polar_halo_exchange", T+"distributed/primitives.py")])
prop("P20", "Distributed modules equal their serial counterparts on every process grid",
 "For every process grid and every shape, the outputs and input gradients that the distributed scalar and vector transforms, quadrature, resampling, spectral and DISCO convolutions produce on each rank are that rank's slices of what the serial module computes on the assembled input, and parameter gradients add up to the serial ones over the ranks that share the parameter. This includes uneven splits and, for the transforms, leading dimensions smaller than the number of processes.",
 ["inputs", "configurations", "schedules"], "all process grids, shapes, grids, channel counts and inputs",
 "Needs several processes and uneven shapes; every combination of grid split and truncation is a different partition.",
 [T+"distributed/distributed_sht.py", T+"distributed/distributed_convolution.py", T+"distributed/distributed_quadrature.py", T+"distributed/distributed_resample.py", T+"distributed/distributed_spectral_convolution.py"], [("DistributedRealSHT", T+"distributed/distributed_sht.py"), ("DistributedDiscreteContinuousConvS2", T+"distributed/distributed_convolution.py"), ("DistributedResampleS2", T+"distributed/distributed_resample.py")])
prop("P21", "Gaussian random fields are spectrally shaped white noise",
 "For every field size, covariance parameters and noise draw, the sampled field is the inverse transform of the noise coefficients scaled per degree by the square root of the documented covariance eigenvalue, zero at degree zero, so supplying the same noise gives the same field and the field is linear in the noise.",
 ["inputs", "configurations"], "all sizes, covariance parameters (with default scaling or explicit), batch sizes and noise coefficients",
 "A statistical test cannot resolve the per-degree scaling for all parameters.",
 [T+"random_fields.py"], [("GaussianRandomFieldS2", T+"random_fields.py")])
prop("P22", "Distributed attention equals serial attention on every process grid",
 "For every process grid, distributed neighbourhood attention returns on each rank that rank's slice of the serial attention output and gradients.",
 ["inputs", "configurations", "schedules"], "all process grids and shapes", "Needs several GPUs.",
 [T+"distributed/distributed_attention.py"], [("DistributedNeighborhoodAttentionS2", T+"distributed/distributed_attention.py")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    print(len(P), [ (p["id"], len(p["title"])) for p in P if len(p["title"])>80])

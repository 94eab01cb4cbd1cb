import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe))))
W=["pmesh/window.py","pmesh/_window.pyx","pmesh/_window_imp.c","pmesh/_window_generics.h","pmesh/_window_tuned_nnb.h","pmesh/_window_tuned_cic.h","pmesh/_window_tuned_tsc.h","pmesh/_window_tuned_pcs.h"]
p("W01","Painting conserves mass on a periodic mesh",
 "Painting one particle of mass m with any of the polynomial resampling windows (nearest, linear, quadratic, cubic, and their tuned NNB, CIC, TSC, PCS versions) onto a fully periodic mesh adds exactly m in total, whatever its position, and for the windows of order two and up painting with the derivative kernel adds exactly zero in total. This holds in 1, 2 and 3 dimensions, with the mesh at least as wide as the window, and including particles that lie many periods outside the mesh.",
 ["inputs","configurations"],"every real position, every real mass, window, dimension, mesh shape within the stated bounds, both canvas precisions",
 "Tests paint a handful of positions; a weight that is wrong on one sub-interval of the cell, or one wrap case, is only seen for positions inside that interval.",
 W,[("per-axis weights","_fill_k in _window_imp.c; _paint_* in _window_tuned_*.h"),("periodic wrapping of the target cell","_generic_paint in _window_generics.h; _paint_* in _window_tuned_*.h")],observe=["ResampleWindow.paint"])
p("W02","Tuned window kernels equal the generic kernels",
 "The tuned windows (NNB, CIC, TSC, PCS) produce the same painted mesh, the same readout and the same derivative results as the corresponding generic windows (nearest, linear, quadratic, cubic) for every position, mass, mesh, affine transform, smoothing factor and boundary treatment. The only exception is the value of the derivative of the linear window exactly at its kinks (integer mesh position along the differentiated axis).",
 ["inputs","configurations"],"every position, mass, mesh values and smoothing factor; 1-3 dimensions; periodic, non-periodic and partially covered meshes; every diff direction",
 "The tests compare a few fixed positions in 2 and 3 dimensions; the specialised code has a separate hand-written formula and wrap branch per axis and dimension.",
 W,[("selection of the fast method","_getfastmethod_* in _window_tuned_*.h"),("hand unrolled weights","_paint_*/_readout_* in _window_tuned_*.h")],observe=["ResampleWindow.paint","ResampleWindow.readout"])
p("W03","Readout is the exact transpose of paint",
 "For every window, including derivative kernels, resized windows and per-particle smoothing, reading a mesh at a position returns exactly the sum over mesh cells of the cell value times what painting a unit-mass particle at that position adds to the cell. Reading never modifies the mesh or the positions, and painting is linear in the mass.",
 ["inputs","configurations"],"every position, mesh value, mass; every window kind incl. table windows; all diff directions; periodic/non-periodic; partially covered meshes",
 "Paint and readout are separate code paths; tests compare them on single positions, and the transpose identity has to hold for every position and mesh value.",
 W,[("paint loop","_generic_paint in _window_generics.h"),("readout loop","_generic_readout in _window_generics.h")],observe=["ResampleWindow.paint","ResampleWindow.readout"])
p("W04","Painting a sub-block equals slicing the global painting",
 "Painting onto (or reading from) an array that stores only a contiguous block of the periodic mesh, with the transform shifted by the block offset, touches exactly the cells of the block that the same particle would touch on the whole mesh and with the same amounts; contributions outside the block are dropped. No memory outside the given array (including gaps of a strided view) is ever written or read, for any position.",
 ["inputs","configurations"],"every position (any distance outside the block), block offset and size, window, diff direction, dimension, array stride",
 "Out-of-block reads and writes are silent in C; tests use positions inside and blocks at fixed places.",
 W,[("range checks before access","_WRtPlus*/_REd* and 'outside' in _window_generics.h"),("negative and positive wrap","_window_generics.h, _window_tuned_*.h"),("shift of the transform","Affine.shift in window.py")],observe=["ResampleWindow.paint","ResampleWindow.readout"])
p("W05","Shifting a particle by a whole period changes nothing",
 "On a periodic mesh, moving a particle by any integer number of periods along any axes leaves the painted mesh and the read-out value unchanged; moving it by an integer number of cells rolls the painted mesh cyclically by that number of cells.",
 ["inputs","configurations"],"every position, period multiples and cell shifts within stated bounds, window, diff direction, non-cubic periods",
 "Needs every position and every wrap count, in particular negative positions and differing periods per axis.",
 W,[("periodic wrapping of the target cell","_window_generics.h, _window_tuned_*.h")],observe=["ResampleWindow.paint","ResampleWindow.readout"])
p("W06","Derivative readout is the derivative of the readout",
 "Reading with a derivative direction returns exactly the partial derivative, with respect to the physical particle coordinate along that axis and hence including the transform scale of that axis, of the plain readout of the same mesh. This holds for the polynomial windows, tuned and generic, at every position where the window is differentiable, in every dimension, and for resized windows and smoothing factors.",
 ["inputs","configurations"],"every position off the kinks, mesh values, per-axis scale, direction, window, smoothing",
 "Tests compare finite differences at single points; sign or scale errors on one sub-interval or axis escape.",
 W,[("derivative kernels","_*_diff in _window_imp.c"),("order handling","_fill_k in _window_imp.c; order[] branches in _window_tuned_*.h")],observe=["ResampleWindow.readout"])
p("W07","Transform, resize and smoothing act as coordinate changes",
 "Painting or reading through an affine transform equals painting or reading, without a transform, at scale*position+translate in mesh units; rescaling or shifting a transform composes accordingly and leaves the original transform unchanged. A window resized to a given support is equivalent to the native window with smoothing factor support/native support, and a window stretched by a factor s equals the native window evaluated at distances divided by s with amplitude divided by s per axis.",
 ["inputs","configurations"],"every position, scale, translate, integer and fractional support/smoothing within stated bounds, window",
 "Fractional and odd/even supports change where the stencil starts; tests sample a few supports.",
 W,[("transform","Affine in window.py; _fill_k in _window_imp.c"),("support and shift","pmesh_window_info_init in _window_imp.c")],observe=["Affine.rescale","Affine.shift","ResampleWindow.resize","ResampleWindow.paint"])
p("W08","Batch calls are sums of single-particle calls for any array form",
 "Painting a batch adds to the existing mesh exactly the sum of the single-particle paintings, each with its own mass and its own smoothing (scalars broadcast, a missing mass means 1), and reading a batch returns per-particle values in order, into the supplied output array when one is given. The result does not depend on whether the inputs are lists, integer, single or double precision, strided, read-only or complex-backed arrays, and inputs are never modified.",
 ["inputs","configurations"],"every position, mass, smoothing and mesh value; array layouts and types enumerated",
 "Tests exercise only a few layouts; correctness per element must hold for all values.",
 ["pmesh/window.py","pmesh/_window.pyx"],[("broadcasting","_mkarr in window.py"),("per particle loop","ResampleWindow.paint/readout in _window.pyx")],observe=["ResampleWindow.paint","ResampleWindow.readout"])
p("W09","The window's Fourier transform is the p-th power of sinc",
 "For the nearest, linear, quadratic and cubic windows and their tuned versions the Fourier-space window at circular frequency w is sinc(w/2)**p with p=1,2,3,4 (1 at w=0, even in w, evaluated at w*s for a window stretched by s), and 1 for windows without an analytic transform; the compensation divides a mode by the product of the transforms over all axes. The result has the shape of the input.",
 ["inputs","configurations"],"every real frequency, every support, window kind, number of axes",
 "Tests compare a few frequencies for the native windows.",
 ["pmesh/window.py","pmesh/_window.pyx","pmesh/_window_imp.c"],[("transforms","_*_fwindow, pmesh_painter_get_fwindow in _window_imp.c"),("compensation","ResampleWindow.get_compensation in window.py")],observe=["ResampleWindow.get_fwindow","ResampleWindow.get_compensation"])
p("W10","Tabulated kernels interpolate within their table, support and sign",
 "The tabulated windows (Lanczos, ACG, Daubechies and Symlet families) never read outside their table for any position; the weight is the linear interpolation of the table, zero outside the tabulated range (which may exceed the nominal support by a few table entries), and the derivative kernel is the slope of that interpolation (times the scale) with the correct sign on both sides. Lanczos and ACG weights are symmetric about the particle.",
 ["inputs","configurations"],"every position; every tabulated window; paint, readout and derivative",
 "An off-by-one at the table end is only reached by a narrow range of positions.",
 ["pmesh/_window_lanczos.h","pmesh/_window_acg.h","pmesh/_window_wavelets.h","pmesh/_window_imp.c"],[("table lookup","_*_kernel/_*_diff in the three headers")],observe=["ResampleWindow.paint","ResampleWindow.readout"])
I=["pmesh/invariant.py","pmesh/_invariant.pyx","pmesh/_invariant_imp.c"]
p("I01","Invariant mode ids are a bijection onto a dense range",
 "For a cubic even mesh of size N in 1, 2 or 3 dimensions the invariant index assigns different non-negative ids to different modes of the mesh, all ids are smaller than the number of modes (N**ndim in full storage, N**(ndim-1)*(N/2+1) in compressed storage), and therefore every id below that number is used exactly once. The DC mode has id 0.",
 ["inputs","configurations"],"every pair of modes for every even N within bound; 1-3 dimensions",
 "Tests enumerate a few sizes; the ring/shell formulas have separate branches per face and edge of the cube that must not collide for any mode.",
 I,[("shell offset and face formulas","_invariant_imp.c"),("entry","get_index in _invariant.pyx")],observe=["invariant.get_index"])
p("I02","Mode ids are ordered from the inside out, independent of resolution",
 "The id of a mode depends only on the mode vector and not on the mesh size used, as long as the mode is below the Nyquist frequency of both meshes; a mode with a larger maximum component always has a larger id, so that the ids of an N-mesh are a prefix of those of any larger mesh.",
 ["inputs","configurations"],"every mode, pairs of mesh sizes within bound, 1-3 dimensions",
 "The ordering and resolution independence relate pairs of calls over all modes and sizes.",
 I,[("shell offset","_invariant_imp.c")],observe=["invariant.get_index"])
p("I03","Invalid modes get id -1; Nyquist aliases agree; maxlength truncates",
 "On meshes with even sizes a mode outside the mesh (component below -N/2 or above N/2) gets id -1, as does any mode whose id would be at or above the given maximum length; every other mode keeps the id it has without the limit. Both signs of the Nyquist component name the same mode and get the same id.",
 ["inputs","configurations"],"every integer mode vector, maximum length, mesh size within bound, 1-3 dimensions",
 "Tests do not reach out-of-range modes or all cut-offs.",
 I,[("validity and alias handling","get_index in _invariant.pyx, _invariant_imp.c")],observe=["invariant.get_index"])
N=["pmesh/whitenoise.py","pmesh/_whitenoise.pyx","pmesh/_whitenoise_imp.c","pmesh/_whitenoise_generics.h"]
p("N01","White noise is independent of how the mesh is partitioned",
 "On a 3-d mesh, even or odd, cubic or not, generating Gaussian white noise for any block (offset and extent) of the Fourier mesh, in full or Hermitian-compressed storage and with any array strides and precision, writes into each stored mode exactly the value that mode has when the whole mesh is generated with the same seed. Every stored mode is written and nothing outside the block is.",
 ["inputs","configurations"],"every seed and every random stream, block offset and extent within bound, compressed or full, unitary or not",
 "Tests compare two blocks for one seed.",
 N,[("per-column seed table","SETSEED/GETSEED in _whitenoise_generics.h"),("skipping draws outside the block","_whitenoise_generics.h")],observe=["whitenoise.generate"])
p("N02","White noise is Hermitian with a real field behind it",
 "On a 3-d mesh, even or odd, cubic or not, the generated Fourier modes satisfy value(-k)=conjugate(value(k)) for every mode of the mesh, so modes that are their own mirror (zero and Nyquist planes' self-conjugate points) are real; the compressed and full storage agree on the modes they share, and the zero mode is zero.",
 ["inputs","configurations"],"every seed and random stream; mesh sizes within bound, even and odd; compressed or full; unitary or not",
 "The conjugate partner logic on the zero and Nyquist planes has several branches; tests check one mesh.",
 N,[("conjugate partner logic","_whitenoise_generics.h")],observe=["whitenoise.generate"])
p("N03","Large-scale modes do not depend on the mesh resolution",
 "With the same seed, every mode strictly below the Nyquist frequency of a coarser cubic 3-d mesh (both with an even number of cells) has the same value on a finer cubic mesh.",
 ["inputs","configurations"],"every seed and random stream; pairs of even mesh sizes within bound",
 "Tests compare one pair of sizes.",
 N,[("seed table filled from the inside out","_whitenoise_generics.h")],observe=["whitenoise.generate"])
p("N04","Unitary noise has unit amplitude, normal noise has the right amplitude",
 "On a 3-d mesh, with the unitary option every non-zero mode that is not its own mirror has modulus exactly one; without it the mode equals sqrt(-log(u))*exp(2*pi*i*v) for two uniform variates of that mode's stream, and both options give a mode the same phase. Values are finite for every draw in the open unit interval.",
 ["inputs","configurations"],"every pair of uniform draws, every mode within bound, both options",
 "Distribution tests sample; a wrong amplitude on one branch is invisible in a mean.",
 N,[("Box-Muller transform","SAMPLE in _whitenoise_imp.c")],observe=["whitenoise.generate"])
p("N05","Noise fields of a mesh are the generator's modes, with the mean asked for",
 "On a 3-d mesh the white noise field made by a particle mesh for a seed holds, in every stored mode, the value the generator gives that mode on the whole mesh, whatever the number of ranks, the process mesh, the precision, the kind of field (transposed or not, compressed or not) and whether memory is reused; the zero mode is the requested mean (zero by default), and a real noise field is the inverse transform of exactly those modes.",
 ["inputs","configurations"],"every random stream and mean; meshes, process meshes, kinds of field and precisions within bound",
 "Tests compare two rank counts for one mesh.",
 N+["pmesh/pm.py"],[("noise fields","ParticleMesh.generate_whitenoise in pm.py")],observe=["ParticleMesh.generate_whitenoise"])
D=["pmesh/domain.py","pmesh/_domain.pyx"]
p("D01","Every particle has exactly one primary owner",
 "Decomposing particles with zero smoothing sends every particle whose position lies in the domain (any position at all when periodic) to exactly one rank, and that rank is the only one on which the particle is reported as primary. A particle sent anywhere with smoothing is always also sent to its primary rank.",
 ["inputs","configurations"],"every position incl. negative and beyond the box, every ascending edge set, number of ranks and dimensions within bound, periodic or not",
 "Tests use random interior positions and uniform edges.",
 D,[("digitize and wrap","GridND.decompose/_fill in domain.py; gridnd_fill in _domain.pyx"),("primary test","GridND.isprimary in domain.py")],observe=["GridND.decompose","GridND.isprimary"])
p("D02","Smoothing sends each particle once to every rank it can reach",
 "With a smoothing radius s a particle is sent to every rank whose domain is closer than s to the particle along every axis (counted through the periodic boundary if periodic), and it is sent to each rank at most once, also when several periodic images or several domains of the same rank are in reach; it is sent to no rank all of whose domains lie farther than s along some axis.",
 ["inputs","configurations"],"every position, edge set, smoothing radius (scalar or per axis), ranks and dimensions within bound, periodic or not",
 "The multiplicity through the boundary depends on the relation of s, edges and position; tests sample one layout.",
 D,[("patch enumeration and uniqueness","gridnd_fill in _domain.pyx"),("left/right patch edges","GridND.decompose in domain.py")],observe=["GridND.decompose","Layout"])
p("D03","Exchange delivers every item to its targets and gather inverts it",
 "An exchanged array contains on every rank exactly the items whose layout names that rank, grouped by source rank and in source order, for every data type and trailing shape; gathering unmodified exchanged data in 'any' mode, or floating-point data in 'mean' mode, returns the original array on every rank, item for item. The exchange cost reported for a rank is the number of items it sends to other ranks.",
 ["inputs","configurations"],"every layout (target sets) within bound, all values, 1-3 ranks, data shapes",
 "Tests use one random layout; permutation errors need specific layouts.",
 D,[("pack and alltoallv","Layout.exchange in domain.py"),("unpack","Layout.gather in domain.py")],observe=["Layout.exchange","Layout.gather"])
p("D04","Gather reduces ghost contributions by the stated rule",
 "Gathering returns for each original item the reduction over all ranks that hold a copy of it: the sum, the mean, any one copy, or every copy untouched for 'all', including for items that were sent nowhere (sum 0), for a non-default trailing shape, and for a user-supplied reduction.",
 ["inputs","configurations"],"every layout within bound, all values, 1-3 ranks, every mode",
 "Depends on the multiplicity pattern of the layout over ranks.",
 D,[("reduction","Layout.gather in domain.py; bincountv in domain.py")],observe=["Layout.gather"])
p("D05","Domain load counts primaries and load balancing keeps a valid assignment",
 "The reported load of every domain is the number of particles (over all ranks) whose primary position falls in that domain (outside a non-periodic box the outermost domain counts), so loads sum to the number of particles; load balancing assigns every domain to exactly one valid rank, leaves no rank with more than the mean load plus the load of one domain, and later decompositions route every particle to the rank the assignment gives to its domain.",
 ["inputs","configurations"],"every position, edges, load pattern within bound; 1-3 ranks, more domains than ranks",
 "Tests check one clustered distribution.",
 D,[("load","GridND.load in domain.py"),("assignment","GridND.loadbalance in domain.py")],observe=["GridND.load","GridND.loadbalance"])
p("D06","A uniform grid decomposition tiles the box exactly",
 "A uniform decomposition has edges running from zero to the box size in equal steps along every axis; its domains assigned to ranks are disjoint and cover the box, every rank's primary region is the product of its edges, and degenerate (empty) domains never receive particles.",
 ["inputs","configurations"],"every box size and position; domain shapes, ranks, communicator sizes and degenerate edges within bound",
 "Tests use a few shapes.",
 D,[("edges and assignment","GridND.__init__/uniform in domain.py"),("degenerate domains","_degenerate handling in domain.py")],observe=["GridND.uniform","GridND"])
p("D07","Packed multi-column exchange equals separate exchanges",
 "Exchanging several arrays of different types and trailing shapes in one call returns for each of them exactly what exchanging it alone would return, leaving the inputs unchanged.",
 ["inputs","configurations"],"every layout within bound, all values, number and shapes of columns",
 "Tests exchange two fixed columns.",
 D,[("packing","Layout.exchange/_exchange in domain.py")],observe=["Layout.exchange"])
M=["pmesh/pm.py"]
p("P01","Mesh coordinates enumerate positions and wave numbers correctly",
 "On every rank the real-space coordinates of a mesh are the cell size times the signed cell number in [-N/2, N/2) for exactly the rank's slab, and the Fourier coordinates are 2*pi/L times the signed mode number in [-N/2, N/2), in the broadcastable shape of the axis; across ranks every cell and every stored mode occurs exactly once, and a field's start, slices, sizes and compression flag describe its block. Every field and every caller has coordinate arrays of its own, so changing them affects no other field.",
 ["configurations","inputs"],"every box size, mesh shape within bound (even and odd, non-cubic), partition, precision, real/complex",
 "Tests use cubic even meshes.",
 M,[("coordinate construction","ParticleMesh._init_*_coords, Field coordinates in pm.py")],observe=["ParticleMesh.x","ParticleMesh.k","ParticleMesh.create_coords"])
p("P02","Fourier transforms are normalised inverses in every layout",
 "The forward transform of a real (or complex) field is the discrete Fourier sum with exp(-ikx) divided by the number of cells, the backward transform is the unnormalised sum with exp(+ikx), so that the two are inverses; transposed and untransposed fields hold the same modes; casting between kinds keeps the meaning; the back-propagation operators are the adjoints (backward transform over number of cells, and forward transform times number of cells). All this holds for any number of ranks, into a new or given field or in place, and the input is unchanged unless it is transformed in place.",
 ["inputs","configurations"],"all values; mesh shapes, partitions, storage kinds and output arguments within bound",
 "Tests compare random fields on one mesh for a few of the combinations of kind, output and rank count.",
 M,[("transforms","RealField.r2c, ComplexField.c2r, Field.cast, c2r_vjp, r2c_vjp in pm.py"),("plans and buffers","ParticleMesh.__init__, Field.__init__ in pm.py")],observe=["RealField.r2c","ComplexField.c2r","Field.cast"])
p("P03","Distributed painting and readout equal the single-process result",
 "Painting particles on any number of ranks through the domain layout built for the window gives, on the union of the ranks' slabs, exactly the mesh obtained on a single process (where a particle at x deposits around x*Nmesh/BoxSize with periodic wrap), wherever the particles are and whichever rank holds them; reading back through the layout gives every particle the single-process value, also for gradients and wider windows.",
 ["inputs","configurations"],"every position and mass, particle placement over ranks, 1-3 ranks (slabs), window, mesh shape within bound",
 "Tests run few random particles; ghost errors need positions close to slab boundaries.",
 ["pmesh/pm.py","pmesh/domain.py","pmesh/window.py"],[("layout with ghost width","ParticleMesh.decompose in pm.py"),("paint/readout","RealField.paint/readout in pm.py")],observe=["ParticleMesh.decompose","RealField.paint","RealField.readout"])
p("P04","Global mode access is consistent with Hermitian symmetry",
 "Setting a Fourier mode by its global index changes exactly that mode and its mirror (to the conjugate), each where it is stored; getting a stored mode returns its value on all ranks, and a self-mirrored mode is kept real. Setting a mode that compressed storage leaves out sets its stored mirror to the conjugate; what getting such a mode returns is not specified.",
 ["inputs","configurations"],"every mode index (negative allowed), value, mesh shape and partition within bound",
 "The mirror and the plane it lives in depend on the index; tests check a few.",
 M,[("mode access","Field.cgetitem/csetitem in pm.py")],observe=["csetitem","cgetitem"])
p("P05","Fourier inner products weigh compressed modes correctly",
 "The real part of the inner product and the norm of compressed Fourier fields equal the sum over all modes of the full mesh (each compressed mode counted with its unstored mirror), are real for equal arguments, and are the same for every partition over ranks; the back-propagation of decompressing doubles every stored mode that is not its own mirror and keeps the others. Computing a product or norm, with a metric or norm function of one's own or without, leaves the fields unchanged.",
 ["inputs","configurations"],"all mode values, mesh shapes (even and odd last axis) and partitions within bound",
 "Weights differ only on the zero and Nyquist planes.",
 M,[("weights","ComplexField.cdot/cnorm, _expand_hermitian, decompress_vjp in pm.py")],observe=["ComplexField.cdot","ComplexField.cnorm"])
p("P06","Slab-wise application visits every cell once with its own coordinates",
 "Applying a function slab by slab to a field calls it so that every local cell is processed exactly once with that cell's own coordinate or index of the requested kind, and stores the result in that cell of the output, in place or not; the input is unchanged unless it is the output.",
 ["inputs","configurations"],"all values; mesh shapes, partitions, coordinate kinds within bound",
 "Depends on strides of the local array and the coordinate kind.",
 M,[("slab iteration","slabiter, xslabiter, apply in pm.py")],observe=["RealField.apply","ComplexField.apply","slabs"])
p("P07","Uniform particle grids are complete and carry unique ids",
 "The uniform particle grid puts, over all ranks, exactly one particle at every mesh cell centre shifted by the requested fraction of a cell, on the rank that owns the cell, and its ids enumerate 0..Nmesh**ndim-1 in row-major global order without repetition.",
 ["inputs","configurations"],"every box size and shift; mesh shapes, partitions and precision within bound",
 "Tests use one mesh.",
 M,[("particle grid","ParticleMesh.generate_uniform_particle_grid in pm.py")],observe=["ParticleMesh.generate_uniform_particle_grid"])
p("P08","Resampling copies modes to the same wave number, and samples images",
 "Resampling a field of any kind to a mesh of another shape copies every Fourier mode below both Nyquist frequencies to the same wave number, sets all other modes to zero, and leaves the source unchanged; resampling to the same shape keeps the modes below Nyquist. Upsampling a real field reads the image at the pixel positions of the new mesh with the given window, downsampling paints the pixels of the old one onto the new, each normalised to keep the mass density or the mean; the results do not depend on the number of ranks.",
 ["inputs","configurations"],"all mode values; pairs of mesh shapes (even/odd) and partitions within bound",
 "Tests use one pair of meshes.",
 M,[("mode mapping","Field.resample, ParticleMesh.resample/reindex, build_index in pm.py")],observe=["ComplexField.resample","RealField.resample"])
p("P09","Back-propagation operators are adjoints of the forward operators",
 "The vector-Jacobian product of painting and of reading satisfies, for every perturbation of the mesh, the positions and the masses, the inner-product identity with the Jacobian-vector product of the same operator, away from the kinks of the window.",
 ["inputs","configurations"],"all positions off the kinks, masses, mesh values, cotangents; windows and dimensions within bound",
 "Finite-difference tests sample points.",
 M,[("derivatives","RealField.paint_vjp/readout_vjp/readout_jvp, ParticleMesh.paint_jvp in pm.py")],observe=["RealField.readout_vjp","ParticleMesh.paint_vjp"])
p("P10","Preview, global sum and mean aggregate over all ranks",
 "The global sum and mean of a real field equal the sum and mean over the whole mesh on every rank, a full-resolution preview returns the whole mesh on every rank, and a preview along chosen axes is the mesh summed over the other axes; a preview at another resolution is that of the field down- or upsampled to that resolution with its mean kept, and a preview of Fourier modes is that of their real field.",
 ["inputs","configurations"],"all values, mesh shapes, partitions and axes within bound",
 "Tests check one field.",
 M,[("aggregation","csum, cmean, preview in pm.py")],observe=["csum","cmean","preview"])
p("P11","Ravel and unravel are inverse global C-order permutations",
 "Ravelling a distributed field gives each rank consecutive elements of the global C-order array, and unravelling an array distributed in that way over ranks restores the field exactly.",
 ["inputs","configurations"],"all values, mesh shapes and partitions within bound",
 "Ordering errors show only for particular partitions.",
 M,[("sorting","ravel, unravel, Field.sort in pm.py")],observe=["ravel","unravel"])
p("P12","Transposing a real field moves every value to the permuted cell",
 "Collectively transposing a real field over any permutation of its axes gives a field on the mesh with permuted shape and box whose value at the permuted cell equals the original value, for any number of ranks, and leaves the original field unchanged.",
 ["inputs","configurations"],"all values; mesh shapes, permutations and partitions within bound",
 "Tests use one permutation of one mesh.",
 M,[("transposition","RealField.ctranspose in pm.py")],observe=["RealField.ctranspose"])
p("P13","Field arithmetic acts cell by cell and keeps the kind of field",
 "Arithmetic on fields (sums, differences, products, quotients, powers, negation, with another field, an array or a scalar on either side, in place or through numpy functions with an output argument) gives in every cell the result of the operation on the values of that cell, as a field of the same kind on the same mesh; comparisons and reductions give plain arrays; operands are unchanged; copies and creation from a value reproduce the value.",
 ["inputs","configurations"],"all values and scalars; kinds of field, partitions and operations within bound",
 "Tests check a few operations on one mesh.",
 M,[("dispatch","Field.__array_ufunc__, Field.copy, ParticleMesh.create in pm.py")],observe=["Field operators","ParticleMesh.create"])
p("P14","A mesh keeps its own geometry whatever other meshes were made before",
 "Plans and process meshes are cached between meshes, yet every mesh, whether new, made again, or derived by reshape, resize or respawn, has the requested shape, box size, precision, window and process mesh, and its coordinates, Fourier transform and painting are those of that geometry; using one mesh never changes another.",
 ["inputs","configurations","histories"],"every box size and field value; sequences of meshes within bound",
 "The cache depends on what was made before and what is still alive; tests create meshes in one order.",
 M,[("cache of plans","_pm_cache, ParticleMesh.__init__ in pm.py"),("derived meshes","ParticleMesh.reshape/respawn/resize in pm.py")],observe=["ParticleMesh","ParticleMesh.reshape","ParticleMesh.respawn"])
p("X01","Line integral convolution integrates the texture along the flow",
 "The image of a line integral convolution is the texture of the cell plus, in both directions, the sum over steps of kernel times step times the texture interpolated at the midpoint of each step along the streamline of the interpolated (optionally normalised) vector field. The image does not depend on the number of ranks, and the texture and the vectors are unchanged.",
 ["inputs","schedule","configurations"],"every texture value; flows, kernels, step lengths, windows, rank counts within bound",
 "Tests only run the function on one pattern without inspecting the image.",
 ["pmesh/lic.py"],[("line integral","lic in lic.py")],observe=["lic"])
p("T01","Legacy transfer functions act mode by mode with the right factor",
 "On 2-d and 3-d meshes, the legacy transfer functions Laplace, Poisson, Gaussian, SuperLanzcos, Trilinear, Constant and RemoveDC multiply every Fourier mode by its documented factor of that mode's own circular frequency, whatever the other modes hold and however the modes are spread over ranks; Poisson and RemoveDC set the zero mode to zero. NormalizeDC divides all modes by the amplitude of the zero mode, wherever it lives.",
 ["inputs","configurations"],"all mode values, every mode, row layout within bound",
 "Tests never inspect individual modes.",
 ["pmesh/transfer.py"],[("row-wise application","TransferFunction in transfer.py")],observe=["TransferFunction"])
p("L01","Legacy painters deposit and interpolate linearly, wrap, drop or refuse",
 "The legacy cloud-in-cell routines (numpy and numba) and the legacy painter with a linear or cubic kernel add to each cell the particle weight times the kernel at that cell, for every position inside, across or outside the box, wrapped by the period if there is one; reading is the transpose of painting. Contributions outside the mesh are dropped in ignore mode and raise an error in raise mode; positions and, while reading, the mesh are unchanged.",
 ["inputs","configurations"],"every position, mass and mesh value; mesh shapes and dimensions within bound",
 "Tests compare a few positions.",
 ["pmesh/cic.py","pmesh/_cic.py","pmesh/lanczos.py"],[("chunked painter","paint/readout in cic.py, _cic.py, lanczos.py")],observe=["cic.paint","cic.readout","lanczos.paint"])
p("L02","The legacy particle mesh paints densities, transforms and reads back",
 "On a cubic 3-d mesh and any number of ranks that all hold cells, the legacy ParticleMesh with the cloud-in-cell brush adds to its canvas the density of the particles routed by its layout (mass times linear kernel divided by the cell volume, wrapped by the box) until it is cleared, transforms it to the Fourier sum divided by the number of cells and back by the unnormalised sum after applying the given transfer functions in order, saves and restores its modes as a stack, and reads the canvas by linear interpolation without changing it; its coordinates are those of its own cells and modes, signed about zero.",
 ["inputs","configurations"],"every canvas, mode, particle position and mass; mesh and rank counts within bound",
 "No test of the suite runs this class on more than one rank.",
 ["pmesh/particlemesh.py"],[("legacy mesh","ParticleMesh in particlemesh.py")],observe=["particlemesh.ParticleMesh"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))

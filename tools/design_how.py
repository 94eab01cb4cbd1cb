HOW = {
'W01': 'C kernels on LLVM IR, through the translated Cython and window.py. The position of each particle is cell + symbolic fraction, mass and background symbolic; the sum over the canvas must be background + mass (or background for derivatives). Polynomial identities per branch, decided by Z3 after normal-form cancellation.',
'W02': 'The tuned kernel and the generic kernel are executed on the same symbolic input, painting and reading, for every derivative direction, stride order, type and support; cell by cell equality.',
'W03': 'paint of a symbolic mass and readout of a symbolic field at the same symbolic position: <paint(m), f> = m * readout(f).',
'W04': 'A canvas with a symbolic origin (translate) and the shape of a block is painted and compared with the slice of the full mesh; the memory model reports any access outside the block.',
'W05': 'Two executions, position x and x + k*period for symbolic k (within bounds; very far positions as well), must produce the same canvas and the same value.',
'W06': 'readout with diffdir is compared with the symbolic derivative of the readout expression: both are piecewise polynomials in the position; the derivative is taken on the term.',
'W07': 'The same particle seen through scale/translate, through resize and through hsml; the stretched window is compared with the textbook B-splines summed over periodic images. In the stretch-any configurations the smoothing length itself is a symbol in [1/2, 3/2] (rational functions, decided by nonlinear real arithmetic).',
'W08': 'Arrays of particles with strides, types, non-contiguous views, broadcast masses and hsml compared with one call per particle.',
'W09': 'The Fourier window at a symbolic frequency, sin an uninterpreted odd function; compared with sinc**p, the series branch with its Taylor polynomial; compensation over all axes.',
'W10': 'Table lookup of the tabulated kernels at a symbolic position with an uninterpreted table: bounds of every table access, interpolation between neighbouring entries, support, symmetry or sign of the value.',
'I01': 'get_index on symbolic mode vectors and mesh size (integers); two vectors with the same id must be equal, ids lie in the dense range.',
'I02': 'As I01 with two meshes, and max-norm shells: ids of a shell form an interval, equal for all meshes that hold the shell.',
'I03': 'Invalid vectors, Nyquist aliases and maxlength with symbolic values.',
'N01': 'The fill routine on LLVM IR for every block of the mesh, the generator a symbolic stream per seed; each stored cell compared with the same cell of the full mesh.',
'N02': 'Full and compressed storage, delta(-k) = conj(delta(k)) cell by cell, real self-conjugate modes, all columns seeded.',
'N03': 'Two meshes of one seed; modes below the smaller Nyquist are equal terms.',
'N04': 'Amplitude of each cell as a term: unit modulus with unitary=True; modulus law from the stream otherwise (log and sqrt as functions with axioms).',
'N05': 'generate_whitenoise on every rank of a process mesh over a stand-in for pfft, with the stream symbolic; each stored mode is the same term as in one generation of the whole mesh, the real field the same terms as the transform back of the modes.',
'D01': 'decompose, exchange and isprimary on symbolic edges, positions and smoothing; also after explicit assignment and after one or two load balancings with symbolic loads.',
'D02': 'For every domain, the distance of the symbolic position to the domain (periodic images included) is an oracle for the target set; duplicates are excluded.',
'D03': 'Symbolic target sets and values through Layout.exchange / gather on the MPI model; also record types, trailing dimensions, several arrays.',
'D04': 'Symbolic values on every ghost; sum, mean, any, all, local, user ufunc against a plain-Python oracle, including the type of the result.',
'D05': 'load with symbolic positions and exponent; loadbalance with symbolic loads: valid assignment, greedy bound, routing and primaries follow.',
'D06': 'Every position of the box is in exactly one domain, every rank has its domain; edges ascending from 0 to the box size.',
'D07': 'Packed exchange of columns with symbolic values of different type compared with one exchange per column.',
'P01': 'x, i and k arrays of fields on several ranks against the definition 2*pi*n/L with symbolic BoxSize.',
'P02': 'r2c and c2r of symbolic fields for every layout, in place and out of place, real, half and full complex; the transform must equal the DFT sum of the definition and the source must survive.',
'P03': 'paint, readout, decompose with symbolic position on p ranks compared with one rank, with hold, gradient, transform and layouts.',
'P04': 'cgetitem and csetitem at every mode (negative numbers included) on every layout with symbolic field content.',
'P05': 'cnorm / cdot of symbolic fields against the full sum over the uncompressed modes.',
'P06': 'apply with kinds and iterators: the function is called with the coordinates of each slab; every cell is visited once.',
'P07': 'Grids of particles with symbolic shift on p ranks, ids unique and complete.',
'P08': 'resample, upsample, downsample, cast between meshes with symbolic modes compared with the mode map.',
'P09': 'Each vjp and jvp as linear form of symbolic inputs: <v, J u> = <J^T v, u>, and J against the derivative of the forward term.',
'P10': 'preview (axes, Nmesh, method), csum, cmean, with symbolic content and rank layouts.',
'P11': 'ravel, unravel, sort with symbolic values for transposed and untransposed fields.',
'P12': 'ctranspose for every permutation with symbolic content; BoxSize and Nmesh permuted.',
'P13': 'All operators between fields, arrays and scalars: result cell by cell, kind and mesh of the result, in place operators, copy, slicing.',
'P14': 'Several meshes made in sequence in one process (cached partitions): each keeps its own shape, grid, dtype and plans.',
'X01': 'lic of a symbolic texture along given flow fields; an independent integration of the stream line as oracle (exact for unit cells); independence of the rank count and of the other ranks\' flow.',
'T01': 'Each transfer function on symbolic modes, several ranks and mesh shapes, against the factor at the mode frequency.',
'L02': 'The legacy ParticleMesh over the stand-in for pfft: canvas and modes symbolic against the Fourier sum, stack of fields and transfer chain; symbolic particles through decompose, exchange, paint, readout and gather; coordinates of every cell and mode.',
'L01': 'cic.py in its numpy and numba branches and lanczos.py painters: symbolic position, weights and canvas; linear or cubic kernel sum over periodic images; dropped or refused particles outside.',
}

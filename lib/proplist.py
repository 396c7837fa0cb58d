BITS='Bit-precise machine integers; lattice extents fixed per run. '
prop('P01','Lattice geometry is a consistent periodic lexicographic map',
 'Site index and coordinates are inverse to each other, in lexicographic order with the first direction fastest; forward and backward neighbours (computed and tabulated) differ from the site by one step in exactly one direction with periodic wrapping and invert each other; the site at a given separation is the periodic translate; the vector from the origin is the shortest periodic representative and the squared distance its square; conversions between the periodic and the symmetric momentum zone return the same momentum modulo the extent, inside the zone. All of this for every mixture of even, odd and unit extents and for the spatial sub-lattices.',
 ['inputs','configurations'],'all sites, directions, coordinates, separations up to twice the extent x lattice extents',
 'Tests look at the origin and the last site of one fixed even lattice.',
 ['src/Geometry/geometry.c','src/Geometry/init.c'],[('index maps','src/Geometry/geometry.c'),('neighbour tables','src/Geometry/init.c')],tech=CB,note=BITS,
 design='Engine B, harness cbmc/geom.c: five parts (index maps, shifts, momentum zones, separations, neighbour tables) against modular arithmetic written out in the harness.')
prop('P02','The draughtboard colours every site once and never two neighbours alike',
 'The draughtboard used for parallel updates and over-relaxation partitions the lattice (or the time slice): every site appears in exactly one colour at exactly one position, and no two nearest neighbours under periodic boundary conditions share a colour, for every mixture of even and odd extents of at least two.',
 ['inputs','configurations','schedules'],'all pairs of colour positions, all directions x lattice extents',
 'A colouring error is a data race that shows only for particular extents; tests use one even lattice.',
 ['src/Geometry/draughtboard.c'],[('colouring','src/Geometry/draughtboard.c')],tech=CB,note=BITS,
 design='Engine B, harness cbmc/db.c: init_cb is run on the given extents, then two arbitrary positions are compared.')
REAL='Exact real arithmetic stands in for floating point (rounding idealised). '
prop('P03','Matrix products equal their definition in every compiled variant',
 'Each of the colour-matrix product routines (plain, first factor adjoint, second factor adjoint, both adjoint, and the two in-place forms) returns exactly the product its name denotes for every pair of complex input matrices, for every supported number of colours and for both the vectorised and the portable build. The variants tuned for special unitary factors return that same product whenever both factors are special unitary.',
 ['inputs','configurations'],'all complex matrices (all special unitary factors for the tuned variants) x number of colours x instruction-set variant',
 'Tests multiply a handful of random matrices with tolerances; an entry that is only wrong for some sign, some entry or some build variant is not sampled.',
 ['src/Matrix_Ops/MMUL/','src/Headers/MMUL*.h','src/Headers/SSE2_OPS.h'],[('matrix products','src/Matrix_Ops/MMUL'),('SSE2 kernels','src/Headers/SSE2_OPS.h')],
 note=REAL+'NC 2..5; tuned variants with one general rotation per factor.')
prop('P04','Colour-matrix utilities equal their mathematical definitions',
 'Adding, subtracting and scaling matrices, adjoint, transpose, traces of up to three factors, outer and matrix-vector products, integer powers, determinant, adjugate, inverse, packing of hermitian matrices into their independent entries and back, and projection onto hermitian or anti-hermitian traceless parts each equal their mathematical definition for every input matrix. Re-orthonormalisation returns a special unitary matrix that keeps the leading direction of its input, for every non-degenerate input.',
 ['inputs','configurations'],'all complex matrices (invertible ones for inverses, including those needing row exchanges) x number of colours x instruction-set variant',
 'Determinants and inverses branch on pivot sizes: tests with generic random matrices never visit the pivoting order a special matrix needs.',
 ['src/Matrix_Ops/U_Nops.c','src/Matrix_Ops/LU_SSE.c','src/Matrix_Ops/invert_SSE.c','src/Matrix_Ops/gramschmidt_SSE.c','src/Matrix_Ops/trace_abc_SSE.c','src/Matrix_Ops/trace_abc.c','src/Matrix_Ops/LU.c','src/Matrix_Ops/invert.c','src/Matrix_Ops/gramschmidt.c'],
 [('linear operations','src/Matrix_Ops/U_Nops.c'),('determinant','src/Matrix_Ops/LU_SSE.c'),('inverse','src/Matrix_Ops/invert_SSE.c'),('Gram-Schmidt','src/Matrix_Ops/gramschmidt_SSE.c')],
 note=REAL+'NC 2..5; for NC>3 determinants, inverses and Gram-Schmidt have one or two symbolic entries per run.')
prop('P05','Matrix exponential and logarithm are exact',
 'For two and three colours, exponentiating a traceless hermitian matrix Q, in full or packed form, returns exactly exp(iQ) for every Q of either sign of determinant (and the identity for zero), and the logarithm of a special unitary matrix, in full or packed form, returns the hermitian matrix with the same eigenvectors whose eigenvalues are the phases. The interpolation solver behind the general case returns the unique polynomial through any distinct nodes, for every number of colours.',
 ['inputs','configurations'],'all traceless hermitian matrices, all special unitary matrices with phases inside (-pi,pi), all distinct nodes',
 'Tests exponentiate a few random matrices: signs, special structures and the packed variants are sampled thinly.',
 ['src/Matrix_Ops/expMat.c','src/Matrix_Ops/exactQ.c','src/Matrix_Ops/effs.c','src/Matrix_Ops/vandermonde.c'],[('exponential','src/Matrix_Ops/expMat.c'),('logarithm','src/Matrix_Ops/exactQ.c'),('interpolation','src/Matrix_Ops/vandermonde.c')],
 note=REAL+'NC 2, 3; series branches near zero and the SU(3) eigenvalue cubic outside.',
 design='Engine A, harness expm.c. Terms with equal values at sample points are proved equal as polynomials and merged while executing, so the transcendental arguments of the library and of the Cayley-Hamilton reference coincide.')

prop('P06','Plaquettes, link traces and Polyakov loops equal their lattice definitions',
 'The spatial, temporal and mean plaquettes are the real traces of the ordered product around every elementary square, averaged over all sites, planes and colours; the link averages and the largest link trace are those of the stored links; the Polyakov loop in each direction is the trace of the ordered product once around the lattice, averaged over the perpendicular sites. Every entry point (separate, combined, called inside a parallel region) returns the same number, for every gauge field, number of colours, dimension and mixture of extents.',
 ['inputs','configurations'],'all gauge fields in the stated families x lattice extents x number of colours, dimensions and instruction-set variant',
 'Tests only ask whether the numbers are gauge invariant on one symmetric lattice: a wrong average, plane or loop length passes.',
 ['src/Field/plaqs_links.c','src/Field/POLY.c'],[('plaquettes and links','src/Field/plaqs_links.c'),('Polyakov loops','src/Field/POLY.c')],
 note=REAL+'Fields: every link an independent complex multiple of a dense special unitary matrix, or a few arbitrary links.',
 design='Engine A, harness obs.c: fields with symbolic links are summed in the harness by walking paths with independent coordinate arithmetic; every entry point is compared with those sums.')
prop('P07','Topological charge, correlator, slab sums and moments equal their definitions',
 'The field strength is the traceless hermitian part of the four clover leaves (or of the improved clover with its published coefficients, or of the single plaquette, as configured) in each plane; the charge density at every site, its total and the action built from it are the sums over the three dual plane pairs, the same from every entry point. From a given charge density, the correlator at each separation is the translation-averaged product, the temporal correlator is its sum over each time slice, the slab sums are the squared charge in every slab averaged over its position, and the moments are those of the slice sums (slices -L/2+1 to L/2-1), with or without FFTW.',
 ['inputs','configurations'],'all gauge fields in the stated families, all real charge densities x lattice extents x FFTW or not',
 'No test computes a topological charge; a sign, plane or normalisation error stays plausible-looking.',
 ['src/Field/clover.c','src/Field/Qcorr.c','src/Field/Qslab.c','src/Field/Qmoments.c','src/Field/Qsusc.c'],[('clover','src/Field/clover.c'),('correlator','src/Field/Qcorr.c'),('slabs','src/Field/Qslab.c'),('moments','src/Field/Qmoments.c')],
 note=REAL+'Derived quantities start from an arbitrary charge density; FFTW is the documented transform.',
 design='Engine A, harness top.c: clover leaves are built in the harness as paths; derived quantities are run with the charge density as free variables and the written arrays intercepted.')
prop('P08','Gauge fixing and gauge transforms only ever gauge transform the field',
 'Applying gauge matrices to the lattice, to a time slice, or link by link inside the gauge fixers replaces every link by g(x) U(x,mu) g(x+mu)^dagger, with the next slice\'s matrix for temporal links. Axial gauge sets every link of its direction to one except at the wrap, maximal axial gauge every link of the tree grown from the origin; residual fixing transforms each slice by the accumulated projected mean temporal links. Landau, Coulomb and over-relaxed fixing return, whatever local matrices the optimiser picks at each step, exactly the input transformed by the accumulated matrices, every slice fixed once and the last joined to the first; the line search compares the gauge functional at its three probe steps.',
 ['inputs','configurations','schedules'],'all gauge fields and local gauge matrices in the stated families x lattice extents x number of colours, dimensions and instruction-set variant',
 'Tests check that the plaquette and Polyakov loop of one lattice survive a random transform; slice handling, axial trees and the fixing drivers are not tested.',
 ['src/Gfix/gtrans.c','src/Gfix/MAG.c','src/Gfix/line_search.c','src/Gfix/CFACG.c','src/Gfix/FACG.c','src/Gfix/Or.c','src/Gfix/Coulomb.c','src/Gfix/Landau.c','src/Gfix/gftests.c'],
 [('transforms','src/Gfix/gtrans.c'),('axial gauges','src/Gfix/MAG.c'),('line search','src/Gfix/line_search.c'),('Coulomb','src/Gfix/CFACG.c'),('Landau','src/Gfix/FACG.c'),('over-relaxation','src/Gfix/Or.c')],
 note=REAL+'Drivers are cut at the optimiser: which matrices it picks is arbitrary, convergence is not claimed.',
 design='Engine A, harnesses gauge.c and gfix.c: the expected field is built in the harness from a copy of the input; in the drivers the optimiser step (or the SU(2) hit of the over-relaxation) is replaced by arbitrary matrices recorded per site.')

prop('P09','Gauge-condition measures equal the lattice divergence and functional',
 'With A_mu(x) the traceless hermitian part of the link (U - U^dag)/(2i), the gauge derivative at a site is the sum over the directions asked for (all for Landau, the spatial ones for Coulomb) of A_mu(x-mu) - A_mu(x), packed as the independent entries, and its norm twice its squared modulus; the fast derivative used inside the optimiser is the same matrix, the theta test is twice the average of that norm over every site per colour, together with its largest value, the gauge functional is one minus the mean real trace of all links, and the time-constancy measure compares the slice sums of every later slice with the first one. The step the line search takes is the vertex of the parabola through its probes, held between them. The first two directions of the Landau conjugate gradient are that divergence, and the accuracy it reports is its norm.',
 ['inputs','configurations'],'every value of symbolic links on small anisotropic lattices, every value of the functional at the probes, every outcome of the comparisons',
 'Tests never call the derivatives or theta tests on a field with a known divergence; the divisions by volume, colour or site weights, dropped diagonal entries and a lost maximum only show against an independent divergence on fields where every entry differs.',
 ['src/Gfix/lin_derivs.c','src/Gfix/gftests.c','src/Gfix/line_search.c','src/Gfix/FACG.c','src/Gfix/CFACG.c','src/Gfix/CG.c'],
 [('derivatives','src/Gfix/lin_derivs.c'),('theta tests','src/Gfix/gftests.c'),('step','src/Gfix/line_search.c'),('Landau','src/Gfix/FACG.c')],
 note='The logarithmic definition of the field and the spectrum of the Fourier acceleration are not covered here.',
 design='Engine A, harness gmeas.c: the theta test runs with an arbitrary norm per site so that its maximum is decided over every ordering; the Landau driver runs with optimiser steps that record the direction they are given.')
prop('P10','Heat-bath and over-relaxation updates act on SU(2) subgroups as specified',
 'The subgroup table lists every pair of rows once. A rotation multiplies the link from the left by the SU(2) element embedded in that pair (the short forms multiply general matrices from the left, or by its dagger from the right), and the projection is the normalised SU(2) part of the same block of link times staple dagger, with the inverse norm. A sweep updates every link exactly once, subgroup by subgroup, with the staple (plaquette, or plaquette and rectangle terms with their weights when configured) built from the current field, and no link enters the staple of another link of its colour. Over-relaxation replaces the projected element s by s^-2, which keeps the action; the heat bath multiplies s^-1 by a unit element whose real part is 1-d with d = -(log u1 + log u2 cos^2(2 pi u3)) NC/(beta |k|), accepted exactly when u4^2 <= 1-d/2, and whose vector part is uniform from the last two draws; links are reunitarised once.',
 ['inputs','configurations'],'all matrices and projected elements in the stated families, all random draws x number of colours, dimensions, action and instruction-set variant',
 'No test runs an update; a wrong distribution or an action that drifts a little only shows in long simulations.',
 ['src/Update/SU2_rotate.c','src/Update/SU2_rotate_SSE.c','src/Update/relax.c','src/Update/hb.c','src/Smear/staples.c','src/Geometry/draughtboard.c'],
 [('subgroups','src/Update/SU2_rotate_SSE.c'),('over-relaxation','src/Update/relax.c'),('heat bath','src/Update/hb.c'),('colours for rectangle actions','src/Geometry/draughtboard.c')],
 note=REAL+'A heat bath that rejects 42 draws in a row and the generator itself are outside.',
 design='Engine A, harness upd.c: rotations and projections on arbitrary matrices; sweeps run with the projection returning an arbitrary unit element and the rotation checked against the expected one, then replacing the link, so a staple that saw a link of its own colour already updated differs from the reference built from the field at the start of the colour.')
prop('P11','Smearing replaces every link by the projected sum of its staples',
 'One smearing sweep replaces each link of the smeared directions exactly once by the projection (APE, stout or logarithmic, each equal to its definition) of (1-alpha) times the link and alpha/(2(d-1)) times the sum of its staples taken from the field before the sweep, with rectangle terms and their published weights when an improved action is configured. Hypercubic smearing decorates each level from links that exclude the directions already used, with weights alpha_l/(2(ND-1-l)). Spatial smearing leaves temporal links untouched. The memory-cheap, precomputed and on-the-fly forms of one smearing give the same field, and the last slices, written after the loop over slices, are those of the same sweep.',
 ['inputs','configurations'],'every value of the symbolic links and smearing parameters x lattice extents x number of colours, dimensions, smearing type and action',
 'Tests only ask whether smearing raises the plaquette of a trivial lattice; a staple taken from a link already smeared, a wrong weight at one hypercubic level or a wrong last slice still raises it.',
 ['src/Smear/smear.c','src/Smear/HYP.c','src/Smear/4D_fast.c','src/Smear/ND_generic_HYP.c','src/Smear/staples.c','src/Smear/projectors.c'],
 [('sweeps','src/Smear/smear.c'),('hypercubic smearing','src/Smear/4D_fast.c'),('staples','src/Smear/staples.c'),('projections','src/Smear/projectors.c')],
 note=REAL+'Two sweeps at most; in sweeps the projection is an arbitrary recorded map, checked on its own against its definition.',
 design='Engine A, harness smear.c: the harness builds every staple of the old field by paths with independent coordinates and compares it with what the sweep hands to the projection; the projection then returns fresh values, so a staple that saw a smeared link differs.')
prop('P12','Gradient flow integrates its equation and measures what it says when it says',
 'One step of the flow multiplies every link in turn by exp of dt times Z0/4, then 8/9 Z1 - 17/36 Z0, then 3/4 Z2 - 8/9 Z1 + 17/36 Z0, Zi being the staple sum of the field at stage i, in both memory variants. The fixed-step driver takes steps of the requested size until its stopping condition and then lands exactly on the stopping time; the adaptive driver compares one step with two half steps from the same field, accepts within its tolerance, retries a rejected step smaller and never grows it more than tenfold nor passes the stopping time. Every measurement reported carries the flow time, plaquette, t^2 E and charge of one and the same field, and the reference scales are computed from all of the measurements.',
 ['inputs','configurations','histories'],'every value of the symbolic generators and the step, every sequence of action densities and trial errors within the bounds x memory variant, direction of flow, number of colours, dimensions and action',
 'Tests never flow a field; a coefficient, a step past the stopping time or a measurement paired with the neighbouring flow time changes the scale by an amount no sampled run reveals.',
 ['src/Smear/wflow.c','src/Smear/wflowfuncs.c','src/Smear/adaptive_flow.c'],
 [('step','src/Smear/wflowfuncs.c'),('fixed step driver','src/Smear/wflow.c'),('adaptive driver','src/Smear/adaptive_flow.c')],
 note=REAL+'Drivers run with the flow step replaced by one that tags the field with its flow time and history.',
 design='Engine A, harness flow.c: for the step, the staples and the exponential are intercepted and the accumulated exponent of every link is compared per stage; for the drivers, fields carry an identity, so each measurement is compared with the time and plaquette of that very field.')

prop('P13','The number of threads and their schedule never change a result',
 'Every parallel routine (observables, topological charge and its correlators, moments and slabs, smearing, hypercubic smearing, gradient flow, gauge transforms, axial, Landau and Coulomb fixing, heat bath and over-relaxation, random fields, U(1) fields, potentials, momentum cuts, configuration-space correlators, byte swapping) computes the same result with one thread as with any number: between two barriers no thread writes a location another thread reads or writes to a different value without synchronisation, for every way iterations may be dealt out to threads, and every thread of a team meets the same barriers. Drivers return the same failure code, files and measurements whatever the team.',
 ['schedules','inputs','configurations'],'every assignment of loop iterations to threads, every interleaving of a barrier interval x all routines x number of colours, dimensions and configure options; links symbolic in the polynomial routines',
 'Tests run with whatever threads the machine gives and compare with a tolerance; a shared scratch variable, a missing barrier or a nowait loop almost always gets away with it.',
 ['src/Field/plaqs_links.c','src/Smear/smear.c','src/Smear/4D_fast.c','src/Smear/wflow.c','src/Gfix/FACG.c','src/Gfix/CFACG.c','src/Gfix/Or.c','src/Update/KPHB.c','src/Cuts/config_gluons.c','src/Field/Qcorr.c'],
 [('observables','src/Field/plaqs_links.c'),('smearing','src/Smear/smear.c'),('fixing','src/Gfix/CFACG.c'),('updates','src/Update/KPHB.c'),('correlators','src/Cuts/config_gluons.c')],
 note='Weak-memory effects beyond races, and races between processes, are outside. Results that depend on random draws are compared for a fixed assignment of streams only.',
 design='Engine A, harness thr.c, instrumented memory: every load and store of a parallel region is logged per logical thread (one per iteration) and barrier interval; the accesses of an interval are classed by who touched them and Z3 is asked for an assignment of logical threads to real threads under which two of them conflict. The same run is compared value by value with the run on one thread. Counterexamples are replayed on a natively compiled build with the same access log.')

prop('P14','Random streams are the published ones, private to a thread and restorable',
 'For each of the five configurable generators and every state, a draw lies in [0,1), is the one of the published recurrence (KISS, WELL512, xorshift1024*, MWC1038, MWC4096) and advances only the state of the thread drawing; the stream of a thread depends on its seed alone. Saving leaves the streams as they were, and a run that initialises from a saved state, in whatever header the writer produced, draws exactly what the run that saved it goes on to draw, and is not reseeded by a later initialisation. Gaussian numbers are finite for every pair of uniform ones, and are the polar transform of the first pair inside the unit disc.',
 ['inputs','histories','configurations'],'every generator state, every draw or save/restore history within the bounds x generators',
 'No test draws a number and looks at it, restores a state, or builds another generator than the default; an endpoint hit once in 2^53 draws, a swapped word order or an index that never moves is invisible in samples.',
 ['src/Utils/par_rng.c','src/Utils/par_KISS.c','src/Utils/par_MWC_1038.c','src/Utils/par_MWC_4096.c','src/Utils/par_XOR_1024.c','src/Utils/par_WELL_512.c'],
 [('generators','src/Utils/par_MWC_4096.c'),('save and restore','src/Utils/par_rng.c'),('gaussians','src/Utils/par_rng.c')],
 note='Bit-precise integers and doubles for the generators.',
 design='Engine B (CBMC, SAT), cbmc/rng.c: the state is read from an in-memory stream of unconstrained words through the public read function; draws are compared with the published recurrences and the words then written with those of the reference; save/restore compares two continuations. The Gaussian transform runs in Engine A with the uniform generator replaced by symbolic reals.')

prop('P15','A configuration written is the configuration read back, in every format',
 'For every gauge field, geometry and each format GLU writes (NERSC short, top-rows and full, MILC, SciDAC, ILDG, HiRep, CERN): the file holds the numbers, dimensions, precision and checksums its format defines; reading it, also through the memory-cheap paths and twice in a row, returns every link where it was, the last row of the top-rows form being the conjugate cofactors. Files cut short, with changed data, or (NERSC, HiRep) claiming another gauge group are rejected, an existing file is never overwritten, and a configuration that cannot be stored completely is not reported as written.',
 ['inputs','configurations','fault_sequences','histories'],'all link values x formats x geometries, writer and reader variants and failing stores within the bounds',
 'The test suite neither writes nor reads a configuration; a link in the wrong place or a path taken only when memory is short goes unnoticed until data are lost.',
 ['src/IO/writers.c','src/IO/readers.c','src/IO/write_headers.c','src/IO/read_headers.c','src/IO/read_config.c','src/IO/Scidac.c','src/IO/XML_info.c','src/IO/HIREP.c','src/IO/CERN.c','src/IO/crc.c','src/IO/chklat_stuff.c','src/Utils/GLU_bswap.c','src/Wrappers/GLUlib_wrap.c'],
 [('writers','src/IO/writers.c'),('readers','src/IO/readers.c'),('headers','src/IO/read_headers.c'),('checksums','src/IO/crc.c')],
 note='The file system is the real one, in a scratch folder. BQCD files are made by the harness from the ILDG ones. A checksum equal to 0xffffffff is taken for a failure by the reader (one in 2^32 files); header text and fault points are concrete per job. A SciDAC or ILDG header whose colours or dimension contradict the rest of the file is not rejected by the code and not decided here. Compiler-chosen byte orders other than the default are not covered.',
 design='Engine A, harness io.c: every link entry is a variable; write_configuration stores the field in a real file, whose bytes the harness decodes by its own reading of the format and compares, entry by entry, with the variables; read_file then returns a field compared in the same way. Engine B (CBMC), cbmc/io.c: byte swaps and both checksums against their polynomial definition for every bit pattern.')

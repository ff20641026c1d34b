import json
P=[]
def p(id,title,st,over,text,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over.split(),text=text),why_tests_cant=why,
      anchors=dict(files=files.split(),mechanism=[dict(name=n,where=w) for n,w in mech])))
p('P01','Sector bases are complete, ordered, and their index maps are bijections',
 'For every number of sites and every charge, the generated basis is exactly the strictly increasing list of all occupation patterns with that charge, and the reported sector dimension is its length. Searching a state in a basis returns its position; (spin-up, spin-down) positions and composite positions, and charge pairs and sector numbers, map to each other one to one; the sector reached by adding or removing an electron is the one with exactly one more or one less electron of that spin, and asking for one outside the Hilbert space raises an error.',
 'inputs','every number of sites up to the exhaustive bound, every charge, every state and every pair of positions','The tests look at one or two sizes; an off-by-one at the last state, an empty or a full sector is not sampled.',
 'edpyt/sector.py edpyt/lookup.py edpyt/espace.py',[('state generation and neighbours','sector.py:generate_states,get_sector_dim,get_cdg_sector,get_c_sector'),('index maps','lookup.py:get_spin_indices,get_state_index,binsearch,get_num_spins,get_sector_index')])
p('P02','Creation, annihilation and hopping obey the fermion algebra with the right sign',
 'On every occupation pattern that allows it, creating, annihilating or hopping an electron gives the pattern with exactly those occupations changed and the sign (-1) to the number of occupied modes the operator passes (those above the mode; those strictly between, for a hop). Hence operators on different modes anticommute, and creating after annihilating restores the state with sign one. The occupied/empty predicates tell the occupation of the given mode, for every mode.',
 'inputs','every state of up to the exhaustive number of modes and every (pair of) mode(s), plus wide random states','Tests check a handful of states on a few modes; signs depend on the whole bit pattern.',
 'edpyt/operators.py',[('bit flips and signs','operators.py:flip,fsgn,get_parity,cdg,c,cdgc,check_full,check_empty')])
p('P03','Displayed Fock states are faithful to the states',
 'Converting a state to its occupation array, string or list shows every mode\'s occupation and converting back gives the state; counting bits gives the number of electrons. The many-body summary prints, for every sector of an eigenspace, its charges, its energies and the Fock states that dominate each eigenvector, in both symmetries.',
 'inputs configurations','every state of up to the bound; eigenspaces of random models in both symmetries','There is one round-trip test on one value and no test of the printing.',
 'edpyt/lookup.py edpyt/eshow.py',[('bit strings','lookup.py:binrep,intrep,count_bits'),('printing','eshow.py:fock,eprint')])
p('P04','Sector Hamiltonians equal the second-quantised Hamiltonian',
 'For every model (spin-resolved symmetric one-body matrix, interaction matrix, half-filling shift, chemical potential or reference charges) and every charge sector, the assembled local and hopping operators equal, entry by entry, the matrix elements of the documented many-body Hamiltonian between the sector\'s Fock states. Sparse and dense forms and any equivalent way of giving the same model (one or two one-body matrices; interaction array or dictionary) yield the same matrix.',
 'inputs configurations','random and structured models (zero couplings, disconnected sites, spin-dependent fields, off-diagonal interaction) of 1 to 4 sites, all sectors','Tests compare a few spectra of fixed small models; a wrong entry, sign or dropped coupling in other sectors or models goes unseen.',
 'edpyt/build_mb_ham.py edpyt/ham_local.py edpyt/ham_hopping.py',[('assembly','build_mb_ham.py:build_mb_ham'),('diagonal','ham_local.py:build_ham_local'),('hopping','ham_hopping.py:build_ham_hopping')])
p('P05','Spin-exchange and pair-hopping terms equal the documented operators',
 'With exchange couplings Jx and pair-hopping couplings Jp given together or alone, the assembled sector Hamiltonian equals the documented operator sums in every charge sector: exchange of opposite spins between sites with its density part, and transfer of a pair between sites. In particular it is Hermitian, and an SU(2)-symmetric choice of couplings gives degenerate multiplets.',
 'inputs configurations','random symmetric Jx, Jp with zero entries, either one absent, 2 to 4 sites, all sectors','One test compares one two-site spectrum.',
 'edpyt/ham_non_local.py edpyt/build_mb_ham.py',[('non-local terms','ham_non_local.py:build_ham_non_local')])
p('P06','The total-charge symmetry gives the same physics as the spin-resolved one',
 'With states labelled by the total charge only, the assembled Hamiltonian of every charge sector equals the documented operator (on-site energies per spin, interaction, exchange and pair hopping) on the combined states, and every basis state of that charge appears exactly once. The spectrum of a model without hopping is the same, sector by sector, as the union of the spin-resolved sectors.',
 'inputs configurations','random models of 1 to 3 sites with and without exchange and with spin-dependent energies, all charges','Tests use spin-independent energies and one size.',
 'edpyt/ham_local.py edpyt/ham_non_local.py edpyt/build_mb_ham.py edpyt/espace.py',[('N-symmetric builders','ham_local.py, ham_non_local.py (N versions), espace.py:build_espace')])
p('P07','Parallel sparse products equal the mathematical product for any thread count',
 'The spin-up, spin-down and full sparse kernels add to the output exactly the product of the (Kronecker-extended) matrix with the input vector, for every matrix shape and sparsity pattern including empty rows and for every number of threads. The combined matrix-vector operator, called repeatedly and with or without an output array, and its dense form, are the same linear map.',
 'inputs schedules configurations','random sparse patterns and dimensions down to 1, thread counts from 1 to more than the rows, repeated calls','Tests use one random matrix and the default thread count; races and lost updates depend on the schedule.',
 'edpyt/psparse.pyx edpyt/cs_gaxpy.c edpyt/cs.h edpyt/ham_hopping.py edpyt/matvec_product.py edpyt/ham_local.py edpyt/shared.py',[('kernels','psparse.pyx:UPmultiply,DWmultiply,Multiply'),('row operations','cs_gaxpy.c:csr_gaxpy,csr_saxpy'),('operator','matvec_product.py:matvec_operator,todense')])
p('P08','Computing observables never changes the model or the eigenspace',
 'Building operators, solving, and evaluating Green functions, occupations, entropies or transition elements leaves the one-body matrix, the interaction, the eigenspace (its sectors, energies, vectors and states) and every other argument the caller still owns bit for bit as they were. A query repeated, or made after other queries, in any order, gives the same answer.',
 'histories','sequences of operations on one eigenspace in random and TLC-generated orders','Every test makes one query on a fresh eigenspace.',
 'edpyt/gf_lanczos.py edpyt/gf2_lanczos.py edpyt/gf_exact.py edpyt/gf2_exact.py edpyt/observs.py edpyt/espace.py edpyt/build_mb_ham.py edpyt/ham_hopping.py edpyt/ham_local.py',[('queries','gf_lanczos.py, gf_exact.py, observs.py, cotunneling.py, sqtunneling.py')])
p('P09','The eigenspace holds the lowest eigenpairs of every sector',
 'For a model and requested counts per sector, every sector of the eigenspace that is reported holds the lowest so many eigenvalues in ascending order (all of them when no count is given) with orthonormal eigenvectors of that sector\'s Hamiltonian and the sector\'s basis states. No sector asked for is missing, none asked to be empty is present, and the reported ground-state energy is the minimum over all of them.',
 'inputs configurations','random models of 1 to 4 sites including degenerate spectra, full and truncated counts with zero counts, both symmetries','Tests compare few energies on a fixed model.',
 'edpyt/espace.py',[('solving','espace.py:build_espace,solve_sector,build_empty_sector,get_espace_dim')])
p('P10','The sparse eigensolver returns converged lowest eigenpairs',
 'For every symmetric operator given as a matrix-vector product, every admissible number of wanted pairs and any starting vector, the sparse eigensolver, as long as it converges within its limit of ten restarts per dimension, returns exactly that many pairs in ascending order, each satisfying the eigenvalue equation with orthonormal vectors, and they are the lowest of the spectrum. Large sectors solved with it agree with the same sector solved densely.',
 'inputs histories','random symmetric matrices with clustered and widely scaled simple spectra (a Krylov method cannot promise every copy of a degenerate eigenvalue), counts 1 to n-1, repeated calls with differing sizes','One test diagonalises one random matrix.',
 'edpyt/eigh_arpack.py edpyt/espace.py',[('reverse communication loop','eigh_arpack.py:eigsh,ArpackParams')])
p('P11','Screening keeps exactly the thermally relevant states and adapts the counts',
 'Screening an eigenspace keeps, in order and unchanged, exactly the eigenpairs whose Boltzmann weight relative to the ground state exceeds the cutoff, drops a sector only when none is left, and is idempotent. Adapting the per-sector counts raises by one the count of a sector whose states all survived (never past its dimension), lowers towards the number that survived, and leaves the counts of other sectors alone.',
 'inputs histories','random eigenspaces, temperatures and cutoffs including exact ties, and sequences of build, screen, adapt','One test walks one sequence on one model.',
 'edpyt/espace.py',[('screening','espace.py:screen_espace'),('adaptive counts','espace.py:adjust_neigsector')])
p('P12','The Lanczos recurrence produces an orthonormal tridiagonal representation',
 'Starting from any non-zero vector the Lanczos coefficients are those of the orthogonal projection of the operator on the Krylov space: all off-diagonals non-negative, the eigenvalues of the tridiagonal matrix are those of the operator projected on that space (its own when the space is exhausted), and the continued fraction is its resolvent on the starting vector. A zero starting vector is reported as such, and the second pass returns the Ritz vectors for the Ritz values asked for.',
 'inputs','random symmetric operators and start vectors, invariant subspaces of every dimension, early exhaustion, limits on the number of steps','Tests compare one ground state.',
 'edpyt/lanczos.py',[('single vector Lanczos','lanczos.py:sl_step,build_sl_tridiag,sl_solve')])
p('P13','Block Lanczos and Gram-Schmidt produce orthonormal bases of the same span',
 'Orthonormalising a set of vectors gives an orthonormal set spanning the same space, with the first k vectors spanning what the first k inputs span. Block Lanczos gives diagonal and off-diagonal blocks that represent the operator on the block Krylov space: symmetric diagonal blocks, triangular off-diagonal blocks, and the operator\'s moments on the starting block, as long as the block Krylov space is not exhausted.',
 'inputs','random blocks of sizes 1 to 4, operators with small invariant subspaces, ill-scaled inputs','There is no test of the block recursion for other than one case.',
 'edpyt/lanczos.py',[('block Lanczos','lanczos.py:build_bd_tridiag,gram_schmidt_rows,gram_schmidt_columns')])
p('P14','The tridiagonal eigensolver returns the selected ordered eigenpairs',
 'For every symmetric tridiagonal matrix (including order one, and those that split into blocks) the solver returns all eigenvalues, or exactly those of the requested index range, in ascending order, and, when asked for, orthonormal eigenvectors as the matching columns. The diagonals passed in are left unchanged.',
 'inputs configurations','random tridiagonals with zero, tiny and degenerate off-diagonals of orders 1 up, all index ranges, with and without vectors','It is only reached through one test of Lanczos.',
 'edpyt/tridiag.py',[('LAPACK drivers','tridiag.py:eigh_tridiagonal')])
p('P15','Continued fractions evaluate to the resolvent element they represent',
 'For every set of coefficients and every complex frequency array, the continued fraction evaluates to the first diagonal element of the resolvent of the tridiagonal matrix. The result has one value per frequency, does not depend on other frequencies in the array, and the coefficients and frequencies stay unchanged.',
 'inputs','random coefficients of orders 1 up, frequencies in both half planes and near poles','One test, one coefficient set.',
 'edpyt/continued_fraction.pyx edpyt/gf_lanczos.py',[('recursion','continued_fraction.pyx:continued_fraction'),('wrapper','gf_lanczos.py:continued_fraction')])
p('P16','Lanczos Green functions equal the Lehmann representation',
 'For every model, site, spin and temperature, the Lanczos Green function (pole or continued-fraction form, electron and hole parts together or separate) equals the thermally weighted sum over the given low-energy states of transition amplitudes into all states with one more or one less electron, at every complex frequency. Hence its spectral weight is positive, its total weight is one when the states are complete, and swapping spins in a spin-symmetric model changes nothing.',
 'inputs configurations','random models of 1 to 4 sites, all positions, spins and forms, screened and full eigenspaces, several temperatures','Tests compare free chains and one dimer at one frequency set.',
 'edpyt/gf_lanczos.py edpyt/lanczos.py',[('build','gf_lanczos.py:build_gf_lanczos,project_up,project_dw,build_gf_coeff_sp,build_gf_coeff_cf')])
p('P17','Exact Green functions equal the Lehmann representation',
 'For every model, site, spin and temperature, the Green function built by summing transitions between the given eigenstates (single element and full matrix) equals the Lehmann sum for the requested spin over every pair of sectors of the eigenspace that differ by one electron of that spin. It is independent of the order of sectors and agrees with the Lanczos one on a full eigenspace.',
 'inputs configurations','random models of 1 to 3 sites with and without spin symmetry, both spins, all positions, eigenspaces that hold the neighbouring sectors','Tests compare spin zero of a free model.',
 'edpyt/gf_exact.py edpyt/gf2_exact.py',[('build','gf_exact.py:build_gf_exact; gf2_exact.py:build_gf2_exact')])
p('P18','Off-diagonal Green functions complete a consistent matrix',
 'Every off-diagonal Green function element built from Lanczos runs on sums of operators equals its Lehmann representation, so that the matrix is symmetric for real models, its diagonal equals the single-site Green functions, and at half filling or for free models it is the inverse of the documented one-body resolvent. Elements between sites that are not connected vanish rather than fail.',
 'inputs configurations','random connected and disconnected models of 2 to 3 sites, all pairs, both spins, both representations','No test covers off-diagonal elements of interacting or disconnected models.',
 'edpyt/gf2_lanczos.py',[('build','gf2_lanczos.py:build_gf_offdiag,build_gf2_lanczos')])
p('P19','Occupations equal thermal expectation values',
 'The occupation reported for every site and spin is the Boltzmann-weighted expectation value of its number operator over the eigenspace, lies between zero and one, and sums to the mean electron number. The occupation of one or several eigenvectors is their expectation value whatever the memory layout of the vectors.',
 'inputs configurations','random models, temperatures, screened and full eigenspaces, C and Fortran ordered vectors and slices','One test, one model.',
 'edpyt/observs.py edpyt/dedlib.py',[('observables','observs.py:get_occupation,get_evecs_occupation')])
p('P20','Thermal entropy and the non-interacting spectrum are exact',
 'The non-interacting eigenspace of given single-particle energies lists every many-body configuration of every sector with the sum of its occupied energies, in ascending order. The impurity-entropy formula equals the entropy difference of the thermal density matrices it is documented to be.',
 'inputs','all sets of single-particle energies of 1 to 4 levels including degenerate ones, temperatures over decades','One test for one set of energies.',
 'edpyt/espace.py edpyt/dedlib.py',[('spectrum','espace.py:build_non_interacting_espace'),('entropy','dedlib.py:get_entropy')])
p('P21','Frequency integration of a Green function gives its thermal occupation',
 'Integrating any Green function with real poles and unit weight over the continued-fraction poles of the Fermi function gives the sum of residues times Fermi factors at the given chemical potential and temperature, for scalar and array chemical potentials. The poles and weights are those of the Fermi function for the requested order, and the Matsubara sum gives the same occupation up to its truncation.',
 'inputs','random pole sets, temperatures, chemical potentials, orders; scalar, matrix-valued and array evaluation','One test integrates one pole.',
 'edpyt/integrate_gf.py',[('integration','integrate_gf.py:zero_fermi,integrate_gf,matsum_gf')])
p('P22','Sequential tunnelling elements and rates follow the golden rule',
 'For every eigenspace the transition elements between eigenstates of neighbouring sectors are the amplitudes of the creation or annihilation operator on each site, for every pair of kept states, and the assembled rate matrix holds, per pair, the sum over leads of coupling times Fermi factor, columns summing to zero. The transition (current) matrix weighs the same amplitudes with the extract and inject leads.',
 'inputs configurations','random models of 1 to 3 sites, truncated eigenspaces, lead couplings, temperatures and biases','Tests compare one dot.',
 'edpyt/sqtunneling.py',[('elements and rates','sqtunneling.py:build_transition_elements,build_rate_matrix,build_transition_matrix,screen_transition_elements')])
p('P23','Sequential tunnelling with total charge agrees with the golden rule',
 'In the total-charge formulation, the electron and hole elements between charge N and its neighbours (including the empty and the full sector) are the operator amplitudes for both spins, and rate and transition matrices follow the golden rule with columns summing to zero. Extracting sequential elements from cotunnelling ones gives the same elements.',
 'inputs configurations','random models of 1 to 2 sites, every reference charge, cutoffs','Tests compare one model.',
 'edpyt/sqtnl.py',[('elements and rates','sqtnl.py:build_transition_elements,build_rate_and_transition_matrices,extract_sequential_from_cotunneling')])
p('P24','Cotunnelling elements and rates equal second-order perturbation theory',
 'For every active sector pair, the cotunnelling elements hold the amplitudes and energies of every intermediate state of the neighbouring sectors, electron-like and hole-like, for each spin process, and evaluating them gives the second-order amplitude for the given leads. Rates are the integral of its square over the Fermi windows, and the rate matrix conserves probability.',
 'inputs configurations','random models of 1 to 2 sites, every charge, temperatures and biases, exact and approximate integration','Tests compare one single-level dot.',
 'edpyt/cotunneling.py',[('elements','cotunneling.py:build_transition_elements,Gf2,Sigma'),('rates','cotunneling.py:build_rate_matrix,build_transition_matrix')])
p('P25','Total-charge cotunnelling equals second-order perturbation theory',
 'In the total-charge formulation, electron and hole amplitudes through every intermediate state, their approximate and exact integrals, and the rate and transition matrices, equal second-order perturbation theory with the regularised integrals in the conventions the module documents (excess energy of the initial state, windows f(E-(mu_ext-(E_n-E_n\')))(1-f(E-mu_inj))). For elastic transitions they agree with the spin-resolved formulation on the same model.',
 'inputs configurations','random models of 1 to 2 sites, every reference charge including those next to the empty and full ones','There is no numerical test of it.',
 'edpyt/cotnl.py',[('elements and rates','cotnl.py:build_transition_elements,Sigma,build_rate_and_transition_matrices')])
p('P26','Cotunnelling integrals equal the regularised Fermi integrals',
 'The closed-form integrals equal the regularised integrals of Fermi functions times products of propagators for all real parameters, including nearly and exactly equal energies, where they are continuous. They scale and transpose as the integrals do: exchanging the two propagators with their coefficients leaves the value, and common shifts of energies and chemical potentials change nothing.',
 'inputs','random parameters over decades of temperature and energy distance, down to coinciding energies','No test evaluates them.',
 'edpyt/integrals.py',[('integrals','integrals.py:Psi,I1,I2,Gamma2,Gamma4')])
p('P27','The stationary distribution is the probability vector of the rate equation',
 'For every irreducible rate generator the stationary solution is real, non-negative, sums to one and is annihilated by the generator. It does not depend on the scale of the rates, is permuted with the states, and the generator passed in is left unchanged.',
 'inputs','random irreducible generators of sizes 1 up with rates over many decades, and those built by the tunnelling modules','Tests look at one two-state case.',
 'edpyt/rates.py',[('null vector','rates.py:stationary_solution')])
p('P28','Distributed transposes permute blocks exactly, whatever the process count',
 'For every number of processes and every vector of equal spin-up and spin-down dimension it divides, collecting columns turns the row-distributed matrix into the column-distributed one holding exactly the same entries, and collecting rows inverts it. The collective completes on every process in every order of arrival, every process ends with its own block, and a shape that is not supported is refused.',
 'schedules inputs configurations','all small dimensions, process counts and element types; all interleavings of the processes in the model','The test runs on one process, where nothing is exchanged.',
 'edpyt/vector_transpose.py',[('Alltoallw plans','vector_transpose.py:collect_dw,collect_up')])
p('P29','Distributed operators and observables agree with the serial ones',
 'For every number of processes the distributed Hamiltonian product, Lanczos coefficients, occupations and Ritz vectors, assembled from the processes\' blocks, equal the serial result. All processes take the same number of steps and return the same coefficients.',
 'schedules inputs configurations','process counts 1 to 4, sectors of random models whose spin-down dimension the processes divide; shapes that are not supported are refused','The tests of it run on a single process.',
 'edpyt/matvec_product.py edpyt/lanczos.py edpyt/observs.py edpyt/build_mb_ham.py',[('distributed product','matvec_product.py:matvec_operator(comm)'),('distributed Lanczos','lanczos.py:sl_step,build_sl_tridiag,sl_solve'),('distributed occupation','observs.py:get_evecs_occupation')])
p('P30','The initial bath is a valid, symmetric discretisation',
 'For every number of bath levels the initial bath has as many energies as hybridisations, all finite and fully initialised, energies spread symmetrically about zero in the band for two levels or more (a single level is at the band edge), distinct within the documented range, and equal hybridisations normalised as documented. The C and Python versions follow the same rule on their documented ranges, and nothing outside the parameter array is written.',
 'inputs','every number of levels from 1 to 40, both parities, bandwidths of 2 and more for distinctness','The test prints one bath.',
 'edpyt_backend/bath.c edpyt/fit_cg.py',[('initialisation','bath.c:init_bath; fit_cg.py:get_initial_bath')])
p('P31','The bath cost function and its gradient are exact',
 'For every bath and target, the hybridisation is the sum of squared couplings over energy denominators, the cost is the mean squared distance to the target on the Matsubara grid, and the gradient returned is its derivative with respect to every energy and coupling. The C and the Python implementation give the same values, and neither changes its inputs.',
 'inputs','random baths of 1 to 8 levels, grids of 1 to many frequencies, random targets','The tests print two numbers.',
 'edpyt_backend/bath.c edpyt/fit_cg.py',[('cost and gradient','bath.c:set_delta,chi2,dchi2; fit_cg.py:Delta,DDelta,Chi2,dChi2')])
p('P32','Line minimisation and conjugate gradients descend and stay bracketed',
 'For every smooth function bracketing ends with a middle point not above its neighbours, the one-dimensional minimiser returns the lowest point it evaluated inside the bracket (for a convex function the minimum, to its tolerance), and minimising along a line moves the point to the minimum it reports and scales the direction to the step made. The conjugate-gradient loop searches down the first gradient and then along each new gradient made conjugate to the direction before; it never increases the function, returns its value at the returned point, and stops at a point where the gradient is small or progress is below tolerance.',
 'inputs histories','convex, multimodal and flat one-dimensional functions, quadratics of every conditioning and non-quadratic functions in several dimensions','Tests only look at exit codes of two runs.',
 'edpyt_backend/mnbrak.c edpyt_backend/dbrent.c edpyt_backend/dlinmin.c edpyt_backend/f1dim.c edpyt_backend/df1dim.c edpyt_backend/frprmn.c edpyt_backend/util.c',[('bracket','mnbrak.c'),('minimise','dbrent.c, dlinmin.c, f1dim.c, df1dim.c'),('conjugate gradient','frprmn.c')])
p('P33','Bath fits never end worse than they start, and are reproducible',
 'Fitting a hybridisation gives a bath whose cost is not above that of the starting bath, is the value the fit reports, and recovers exactly representable targets. The result depends on nothing but the arguments: repeating the call, or calling through any of the interfaces with the same start, gives the same bath, and the target passed in stays unchanged.',
 'inputs histories','random targets generated by baths and by semicircular bands, 1 to 8 levels, repeated calls','One run is made and only its exit status is looked at.',
 'edpyt_backend/fit.c edpyt_backend/fit_wrap.py edpyt/fit_cffi.py edpyt/fit_cg.py',[('fits','fit.c:fit, fit_wrap.py:fit_hybrid, fit_cffi.py:fit_hybrid, fit_cg.py:fit_hybrid')])
p('P34','The DMFT loop stops exactly when converged or out of steps, and stays causal',
 'The self-consistency loop evaluates one step per call, counts them, reports convergence exactly when the change of hybridisation is below tolerance, and failure exactly when more steps than the limit were made without that. Hybridisations handed to the solver are causal at every frequency (positive imaginary parts become a tiny negative one, everything else stays), and both mixing schemes feed back the hybridisation of the latest step.',
 'histories','all sequences of step outcomes up to the bound in the model; random hybridisation sequences against the code','There is no test of the loop.',
 'edpyt/dmft.py',[('loop','dmft.py:DMFT.__call__,step,distance,solve')])
p('P35','The impurity solver is a consistent Anderson model',
 'After any sequence of fits, chemical-potential updates and solves (the bath being reset before the first fit), the impurity model holds the bath of the last fit and the chemical potential of the last update, its Green function is that of the Anderson model so defined, its self-energy is the difference of inverse free and interacting Green functions, and its occupation is the thermal one, at the temperatures documented. For a spin-resolved impurity each spin sees its own bath, and symmetrising makes both equal.',
 'histories inputs','random sequences of fit, update, solve and query on random hybridisations, with and without adaptive counts','There is no test of it.',
 'edpyt/dmft.py',[('impurity','dmft.py:Gfimp,SpinGfimp,Delta')])
p('P36','Local lattice Green functions satisfy the Dyson and Weiss identities',
 'For every self-energy, chemical potential and frequency, the local Green function of a lattice given by its hybridisation or by its Hilbert transform satisfies Dyson\'s equation, the hybridisation it reports is z + mu - Sigma - 1/G, and the Weiss field is the inverse of z + mu - Delta. The free function is the same with zero self-energy, and the inverse form is its reciprocal.',
 'inputs histories','random causal hybridisations, Hilbert transforms and self-energies, complex and Matsubara frequencies, sequences of updates','There is no test of it.',
 'edpyt/dmft.py edpyt/nano_dmft.py',[('lattice','dmft.py:Gfloc,Gfhybrid,Gfhilbert')])
p('P37','Real-space DMFT maps equivalent sites consistently on any number of processes',
 'For every assignment of sites to non-equivalent representatives (the processes dividing the representatives), the local Green functions, hybridisations, Weiss fields and occupations are those of the representatives from the full inverse matrix with every site\'s self-energy that of its representative. Distributing the non-equivalent sites over processes changes nothing.',
 'inputs configurations schedules','random clusters of 1 to 4 sites, all equivalence maps, 1 to 3 processes','There is no test of it.',
 'edpyt/nano_dmft.py',[('site maps','nano_dmft.py:Gfloc,Gfimp')])
p('P38','Chemical-potential adjustment reaches the occupation asked for',
 'Adjusting the chemical potential returns a value at which the occupation of the Green function equals the goal within tolerance whenever the occupation crosses the goal in the bracket, and raises an error otherwise. The self-consistency step that adjusts it sets the lattice to that value at once, and the impurity with the next step.',
 'inputs','random monotone occupation functions, goals and brackets','There is no test of it.',
 'edpyt/dmft.py',[('root search','dmft.py:adjust_mu,dmft_step_adjust')])
p('P39','Distributional ED draws baths that reproduce the sampled Green function',
 'Samples are drawn through the inverse of the cumulated density, within its limits, never where it is zero, and without changing it. A sampled non-interacting Green function has the drawn poles with equal weights; the impurity model fitted to it has the same Green function: the level is the mean of the poles, the bath levels interlace them and the couplings give the same residues. The Anderson Hamiltonians built from it have that non-interacting Green function, whatever the number of poles and samples.',
 'inputs histories','random pole sets of 2 to 8, densities with zeros, uniform and peaked, seeds','There is no test of it besides a script.',
 'edpyt/dedlib.py',[('models','dedlib.py:RandomSampler,Gf0,Gfimp,build_siam,build_moam')])
p('P40','Distributional ED averages exactly the accepted samples',
 'The solver draws until it has the number of samples asked for, discards exactly the samples whose interacting ground state has not the electron number of the free one (for several impurities: of each impurity with its bath), and returns, per impurity, the average over the samples accepted for it of both occupations, the entropy and the self-energy. Its result is a function of its arguments and seed, not of what the output array held. Smoothing keeps the components of a self-energy slower than the cutoff and removes the others.',
 'histories inputs','all accept/reject histories of the averaging loop up to the bound, with 1 and 2 impurities; random densities, interactions and temperatures; 2 to 4 poles','There is no test of it.',
 'edpyt/dedlib.py',[('loops','dedlib.py:siam_solve,moam_solve'),('smoothing','dedlib.py:smooth')])
p('P41','Drawings show every bond, orbital weight and spin occupation once',
 'A drawn molecule has one line per pair of bonded atoms, between their positions in the plane asked for. A drawn orbital adds, on each atom of the subset in the order of its amplitudes, one disc whose radius is the scale times the square of the amplitude, red for positive and blue for negative ones. A drawn spin density adds on each atom one black and one gray disc whose radii are, up to one common factor, the up and down occupations of the vector. Everything is drawn in the axes given, or in new ones, and the arguments are not changed.',
 'inputs','random chains, rings, graphs and isolated atoms, all planes, subsets in any order, vectors of every sector of 1 to 3 sites in any layout','Nothing tests the drawings; they need libraries the tests do without.',
 'edpyt/cotools.py',[('drawings','cotools.py:draw_skeleton,draw_feynman_dyson_orbital,draw_spin_density')])
p('P42','Collections of impurities and loops over clusters treat every site by itself',
 'In a collection of impurities, fitting, updating (with one chemical potential, or one per site), resetting, solving, symmetrising and asking for self-energies act on every impurity as on that impurity alone, in the order of the sites; the up and down views do so for one spin of each; the local moments are the thermal spin polarisations of each impurity site; what the collection does not define is that of the first impurity. A self-consistency loop over the non-equivalent sites of a cluster, also a spin-polarised one, fits every impurity to its own hybridisation and solves it at the level of its own site.',
 'histories inputs','random histories on 1 to 3 impurities with and without spin and adaptive counts, loops on clusters of 2 and 3 sites under all equivalence maps','There is no test of it.',
 'edpyt/nano_dmft.py edpyt/dmft.py',[('collection','nano_dmft.py:Gfimp'),('loop','dmft.py:DMFT,dmft_step,dmft_step_magnetic')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))

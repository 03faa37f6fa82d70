p("T01", "Averaging of raw spectra conserves spectral weight",
  "The z-averaged raw spectrum contains every delta peak of the input spectra exactly once: frequencies are strictly increasing, each carries the sum of the weights found at that frequency in all inputs divided by the number of inputs, and the requested weight column is the one used. Files with a different column layout or a truncated record, missing inputs and invalid arguments are refused without output.",
  "all peak frequencies and weights (including coincidences and zeros), 1-3 input spectra with 0-3 peaks each, every column choice, both directory layouts", "The tests compare one averaged data set; which frequencies coincide, how many files there are and which column is selected are sampled once.",
  ["tools/binavg/binavg.hpp"], [("load and merge of peaks, normalisation, writing", "tools/binavg/binavg.hpp")], ("inputs", "configurations"))
p("T02", "Matsubara conversion of raw spectra",
  "The Green's function on Matsubara frequencies computed from raw spectra equals the sum over all peaks of weight/(i w_n - frequency), averaged over the interleaved data sets, at the fermionic frequencies w_n of the requested temperature, for as many points as asked. The selected column is used and malformed files are refused.",
  "all peak frequencies, weights and temperatures in the stated intervals, 1-3 data sets, 1-4 Matsubara points, all column modes", "The tests check a single spectrum at one temperature.",
  ["tools/mats/mats.cc"], [("reading, averaging and the Matsubara sum", "tools/mats/mats.cc")], ("inputs", "configurations"))
p("T03", "Spectral moments from raw data",
  "The reported raw moments are the weight-averaged powers of the frequency of the z-averaged spectrum, the central moments are those about the mean of the same distribution, and the positive/negative/interval filters select exactly the peaks they describe. Truncated or missing data files are refused.",
  "all frequencies and weights, 1-2 data sets of 1-3 peaks, every filter switch", "The tests fix one data set and at most one filter.",
  ["tools/specmoments/specmoments.cc"], [("accumulation of moments, filtering", "tools/specmoments/specmoments.cc")], ("inputs", "configurations"))
p("T04", "Spectral-function broadening conserves sign and shape",
  "Broadening a raw spectrum gives, at every mesh frequency, the sum over the peaks of weight times the log-Gaussian/Gaussian kernel of the documented width, averaged over the data sets (on further iterations with the width of each peak following from the logarithmic derivatives of the integrated spectrum of the previous one, never below the lower bound); contributions of opposite frequency sign do not leak and the requested mesh is the one written.",
  "all peak frequencies and weights in the stated interval, kernel widths and mesh limits, 1-2 peaks, 1-2 data sets", "The tests compare a few spectra for fixed broadening parameters.",
  ["tools/bw/bw.cc"], [("mesh, kernels, accumulation and output", "tools/bw/bw.cc")], ("inputs", "configurations"))
p("T05", "Averaging of tabulated functions over different meshes",
  "Averaging tables given on different meshes produces, on the sorted union of the meshes (each abscissa once), the arithmetic mean of the piecewise-linear interpolants of the tables, with the documented continuation outside a table; for thermodynamic tables the optional reference is subtracted on the same mesh. Tables of inconsistent shape are refused.",
  "all strictly monotonic meshes and values, 1-3 tables of 2-3 rows and up to two data columns, optional reference", "Tests contain one pair of tables; the interleaving of meshes is sampled once.",
  ["tools/intavg/intavg.cc", "tools/tdavg/tdavg.cc", "tools/common"], [("mesh merge and averaging", "tools/intavg/intavg.cc"), ("block reading, reference subtraction", "tools/tdavg/tdavg.cc")], ("inputs", "configurations"))
p("T06", "Integration of tabulated functions over the selected range",
  "The integration tool reports the integral of the interpolated table over exactly the selected part of the axis (all, positive, negative, thermally weighted), independent of the order of the input lines, and refuses unusable tables.",
  "all linear functions on grids of 6-7 points in any order, every range switch", "The tests integrate a few fixed functions.", ["tools/integ/integ.cc"], [("range selection, weighting", "tools/integ/integ.cc")], ("inputs", "configurations"), "GSL spline/quadrature replaced by exact-on-linear stubs.")
p("T07", "Eigen decomposition tool returns a complete orthonormal eigensystem",
  "For any real symmetric matrix the tool writes ascending eigenvalues multiplied by the requested factor and, in text or binary form, one normalised eigenvector per eigenvalue satisfying the eigenvalue equation. Non-square, unreadable or empty input is refused.",
  "all spectra in [-3,3] with four rational eigenbases per order, orders 1-3, text and binary output, factor", "The tests diagonalise fixed matrices and compare files.", ["tools/diag/diag.cc"], [("parsing, packing for LAPACK, output", "tools/diag/diag.cc")], ("inputs", "configurations"), "LAPACK replaced by an oracle that recognises the announced decomposition.")
p("T10", "Discretisation solver: mesh and representative energies of a hybridisation function",
  "For a tabulated hybridisation function (selected side of the axis, any order of lines, rescaled by bandrescale, linearly interpolated, constant beyond the table) adapt writes, one row per output step from x=1 to xmax, the solution f(x) whose representative energies E=f Lambda^(2-x) decrease from 1 and satisfy the discretisation equation: the hybridisation weight above E(x) equals the integral over x of the weight contained in the mesh interval [eps(x+1), eps(x)]. The mesh is eps=g Lambda^(2-x) with g=1, the stored g(x) (loadg) or the adaptive g(x) for which the weight above eps(x) is A(1-Lambda^(2-x)) with A the total weight and g tending to A/rho(0); with hardgap the mesh accumulates at the boundary. The result does not depend on the overall scale of the function. Parameters out of range, unusable tables and malformed command lines are refused without output.",
  "all overall amplitudes for several table shapes, both signs, three values of Lambda and bandrescale, fixed, adaptive and stored meshes, hard gap, flat bands; all refused parameter values", "The tests compare files of a few bands.",
  ["tools/adapt/adapt.hpp", "tools/adapt/adapt.cc", "tools/adapt/load.hpp", "tools/common/linint.hpp", "tools/common/calc.hpp", "tools/common/tabulated.hpp", "tools/common/parser.hpp"], [("Runge-Kutta integration, shooting, right-hand sides", "tools/adapt/adapt.hpp"), ("interpolation and integrals of tables", "tools/common/linint.hpp, calc.hpp"), ("command line", "tools/adapt/adapt.cc")], ("inputs", "configurations"), "Table shapes are concrete (the amplitude and single table values are symbolic): general symbolic shapes give rational functions beyond the solver.")
p("T11", "Kramers-Kronig transform of symmetric tables",
  "For a table on a grid symmetric about zero the tool outputs, on the same sorted grid and at full precision, the principal-value integral of the interpolated function divided by pi; even inputs give odd outputs and odd inputs even ones. Asymmetric or odd-sized grids are refused, and in filter mode nothing but the table reaches standard output.",
  "all linear functions, all even and all odd tables on grids of 6-8 points in any order, file and filter mode", "Tests compare one function at fixed tolerance.", ["tools/kk/kk.hpp", "tools/kk/kk.cc"], [("grid validation, integrand, end correction", "tools/kk/kk.hpp")], ("inputs", "configurations"), "GSL spline/quadrature replaced by exact-on-linear stubs.")
p("T12", "Hilbert transform of a density of states",
  "The Hilbert transform equals the integral of the density of states over (z - E) in both half-planes and arbitrarily close to the real axis, conjugating z conjugates the result for a real density, and every calling mode (single point, list of points, self-energy files) returns the same function with the documented shifts, scale and prefactor.",
  "all complex polynomial densities at eight points of the complex plane, all linear tabulated densities for the three calling modes", "The tests evaluate the Bethe lattice at a handful of points.", ["tools/hilb/hilb.hpp", "tools/hilb/hilb.cc"], [("subtraction of the singular part, branch selection", "tools/hilb/hilb.hpp")], ("inputs", "configurations"), "GSL quadrature replaced by a composite Gauss-Legendre rule.")
p("T08", "Matrix calculator reproduces the expressions of its input",
  "For every input file (or sequence of input files) the matrix tool writes one line per matrix row whose entries equal the value of the arithmetic expression in the file - numbers, the four operations with their usual precedence, parentheses, unary minus, names assigned earlier in the input, the functions Sqrt, sqrt, exp and log, and the channel-resolved Wilson-chain coefficients loaded from the coefficient files of the addressed channel and site (coefxi, coefzeta, gammaPolCh; with -s also coefdelta, coefkappa, coefV) - at full precision and with the requested line prefix. Channel or site indices outside the tables and missing files are refused.",
  "all operand, name and coefficient values, 1-3 channels, every channel/site index around the table limits", "The tests parse a handful of fixed files.",
  ["tools/matrix/parser.cc", "tools/matrix/matrix.cc", "tools/matrix/matrix.h"], [("grammar actions, coefficient access, loading of tables", "tools/matrix/parser.cc"), ("lexer", "tools/matrix/matrix.cc")], ("inputs", "configurations"), "Lexer and parser are the committed generated sources.")
p("T09", "Wilson-chain coefficients of a tabulated hybridisation function",
  "nrgchain computes, for every discretisation interval, the normalised weight (share of the hybridisation function between the interval limits) and the representative energy given by the tabulated (or flat-band) solution, and the total weight theta; the tridiagonalisation yields hopping and on-site coefficients whose chain reproduces the moments of the discretised spectrum (rescaled only as requested). Parameters out of range, missing, short or unusable tables are refused without output.",
  "all hybridisation amplitudes and representative energies of the tabulated functions, several (Lambda, z, bandrescale, mMAX), chains of 1-2 sites of stars with 4-6 states and symbolic energies, weights and band rescaling, all refused parameter values", "The tests compare files of single band shapes.",
  ["tools/nrgchain/nrgchain.cc", "tools/common"], [("integration of the hybridisation function, tables, Lanczos recursion, rescaling", "tools/nrgchain/nrgchain.cc")], ("inputs", "configurations"), "GMP replaced by exact real arithmetic.")
p("C01", "Shell-by-shell construction reproduces the chain Hamiltonian for every symmetry type",
  "For every supported symmetry type (QS, QSZ, ISO, ISO2, ISOSZ, SPSU2, SPU1, U1, NONE, P, PP, SL, SL3, SU2, the left-right, double-isospin, orbital and C3 variants), numbers of channels, and polarisation/pairing/rung options, adding sites one shell (or one channel substep) at a time gives a block-diagonal Hamiltonian that is the Wilson-chain Hamiltonian: the multiplets with their multiplicities account for exactly 4^(channels x sites) many-body states (2^ for spinless), the traces of its powers and its correlations with every conserved quantum number equal those of the free-fermion chain with the same hopping, on-site, pairing and inter-channel coefficients (on-site terms counted from half filling) for arbitrary coefficient values and regardless of the basis chosen inside each invariant subspace of the previous shell.",
  "all coefficient values (hopping, on-site energy, pairing, rung coupling, spin-resolved), 31 symmetry types, 1-3 (4) channels, 1-3 sites, with and without substeps, plain and rotated bases", "Test problems use a few symmetry types with one set of coefficients, comparing output files; in this configuration of the build none is even run.",
  ["c++/symmetry", "c++/symmetry.hpp", "c++/subspaces.hpp", "c++/invar.hpp", "c++/recalc.hpp", "c++/oprecalc.hpp", "c++/core.hpp", "c++/coef.hpp", "c++/step.hpp"], [("block Hamiltonian: make_matrix with diag/offdiag functions", "c++/symmetry/sym-*-impl.hpp, coefnew/*.dat"), ("irreducible matrix elements: recalc_irreduc, recalc_doublet", "c++/symmetry/nrg-recalc-*.hpp, c++/recalc.hpp"), ("subspace bookkeeping", "c++/subspaces.hpp, c++/invar.hpp")], ("inputs", "configurations"), "Moments up to order 4 (2 for the largest blocks); the reference is a Bogoliubov single-particle matrix. Eigensolver not involved (the basis is prescribed), range-v3, boost::serialization/MPI, HighFive replaced by mocks in engine/mock3s.")
p("C02", "Operators are carried correctly from shell to shell for every symmetry type",
  "For every supported symmetry type the matrix elements of operators are correct in the enlarged basis after each added site: the fermion operators of the new site computed afresh, the doublet (and quadruplet), singlet, spin-triplet and orbital-triplet operators of earlier sites recalculated by the symmetry's recalc_* functions, and the global operators (total spin, charge, isospin components, channel- and spin-resolved charges and occupancies) accumulated site by site. Together with the symmetry's spectral-density and susceptibility factors they reproduce the frequency moments of the spectral functions and susceptibilities of the free-fermion chain (Tr of products of repeated commutators with H), singlets and global operators have the right traces, overlaps with H and commutators, and operators obey the selection rules (triangle inequalities) of the symmetry. Left-right types carry the even part of an operator; three-fold rotation types the part with zero angular momentum.",
  "all coefficient values (hopping, on-site energy, pairing, spin-resolved), 30 symmetry types, 1-3 channels, two sites (three in the thorough tier), with and without substeps", "Test problems compare spectra of a few symmetry types and parameter sets to stored files; in this build configuration none of them runs.",
  ["c++/symmetry", "c++/symmetry.hpp", "c++/recalc.hpp", "c++/oprecalc.hpp", "c++/operators.hpp", "c++/subspaces.hpp"], [("recalculation formulas and their coefficient tables", "c++/symmetry/nrg-recalc-*.hpp, coefnew/*.dat"), ("general transformation of matrix elements", "c++/recalc.hpp"), ("spectral and susceptibility factors, selection rules", "c++/symmetry/sym-*-impl.hpp")], ("inputs", "configurations"), "Moments up to order 3 (1 for the largest blocks). Relative signs of operators on different sites are fixed by the convention of the symmetry type. ISO2LR is left out (its Hamiltonian is a known finding of C01).")
p("C03", "Truncation of a shell keeps exactly the lowest levels asked for",
  "After the diagonalisation of a shell the energies are referred to the lowest one; with fixeps>0, levels closer than fixeps are merged into clusters (a level is lowered by less than the threshold, order preserved, levels further apart stay distinct). Truncation keeps the lowest levels across all invariant subspaces - every kept level lies below every discarded one - and at least as many as requested (keep, or keepenergy/keepmin/keep limits measured in the right energy unit, all of them on the steps of the keepall list), extended by at most safeguardmax levels only while the next one is within safeguard of the last, and not at all when safeguard is zero except for exact ties. States that were not computed and might belong to the kept part are reported as not enough. The counts of kept/discarded states with multiplicities, the stored eigenvectors and energies agree with that choice; sorting by the separate criterion moves levels and eigenvectors together.",
  "all energies of shells with 3-5 levels in 2-3 subspaces, all values of keep, keepmin, keepenergy, safeguard, safeguardmax and fixeps, all forms of keepall", "Degeneracies, clusters and boundary coincidences are measure-zero events for tests of physical models.",
  ["c++/core.hpp", "c++/truncation.hpp", "c++/splitting.hpp", "c++/eigen.hpp"], [("number of states to keep, not-enough detection", "c++/truncation.hpp"), ("cluster repair", "c++/splitting.hpp"), ("energies, kept/discarded ranges", "c++/eigen.hpp")], ("inputs", "configurations"))
p("C04", "Collection, patching and broadening of spectral weight",
  "Spectral weight is neither lost nor moved by its collection: a delta peak added to the logarithmic bins is shared between the two nearest bins of its side of the frequency axis so that weight and logarithmic energy (energy, on the shifted grid with accumulation>0) are conserved, peaks below/above the range go to the first/last bin, and only peaks below discard_immediately (bins below discard_trim times their width, except the last) are dropped. The N/N+1 and N/N+2 patching weights each shell with its window (linear or tanh, from goodE to goodE times Lambda^2 (Lambda) of the shell's energy scale, also with absolute=true), so that windows of consecutive merged shells add up to one over the range covered. The saved bins are (frequency, weight) records; the saved spectrum is the sum of the peaks broadened by the modified log-Gaussian kernel (Gaussian below omega0, given or omega0_ratio T) on the geometric mesh; Matsubara functions and temperature tables add the contributions of all shells at the right frequencies/temperatures. Spectral moments and fluctuation-dissipation integrals are those of the collected peaks, Fermi factors lie in [0,1] with f(x)+f(-x)=1, and unusable limits, widths and meshes are refused.",
  "all peak energies and (complex) weights of 1-2 peaks, all bin weights, all window positions goodE in [1.2,3], all clipping thresholds, kernel widths; several grids and merging schemes", "Peaks falling between grid points, window edges and clipping thresholds are sampled by a few spectra only.",
  ["c++/bins.hpp", "c++/spectrum.hpp", "c++/spectral.hpp", "c++/matsubara.hpp", "c++/step.hpp", "c++/params.hpp"], [("coarse graining and trimming", "c++/bins.hpp"), ("merging of shells, broadening, saving", "c++/spectrum.hpp"), ("kernels and statistical factors", "c++/spectral.hpp"), ("Matsubara tables", "c++/matsubara.hpp")], ("inputs", "configurations"), "Window positions and weights are not symbolic at the same time. Partition of unity is claimed for one channel (N/N+2, N/N+1) and for two channels with substeps.")
p("C05", "Spectral functions of every algorithm collect the Lehmann sum of their shell",
  "Each spectral algorithm (FT, DMNRG, CFS, FDM and their lesser/greater parts, the Matsubara versions, and the temperature-dependent G(T), I1(T), I2(T), chi(T)) accumulates from a shell exactly the Lehmann sum of its definition: for every pair of invariant subspaces connected by both operators (and passing the projection and the selection rule) with its spectral factor, peaks at the energy differences with weight conj(A) B times Boltzmann factor over the partition function, or with the reduced density matrix standing on the operator side prescribed by Tr[rho A+ B] and Tr[rho B A+], with the bosonic/fermionic relative sign, over kept-kept (FT, DMNRG), kept-discarded (CFS) and all but kept-kept pairs (FDM, all at the last shell), bosonic zero-frequency and degenerate terms included. Nothing depends on whether matrix elements are real or complex or whether energies are stored absolute or rescaled; the shell temperature follows the energy scale of the shell.",
  "all matrix elements of both operators (real and complex) and all hermitian density matrices of shells with 2-3 subspaces of 1-3 states, kept and discarded, all algorithms, fermionic and bosonic, last and earlier shell, absolute and rescaled energies, projections; concrete distinct or degenerate levels", "Spectra of test models are compared with stored files for few algorithms and real matrix elements only; in this build configuration none of them runs.",
  ["c++/algo_FT.hpp", "c++/algo_DMNRG.hpp", "c++/algo_CFS.hpp", "c++/algo_FDM.hpp", "c++/algo.hpp", "c++/spectrum.hpp", "c++/matsubara.hpp"], [("Lehmann sums", "c++/algo_*.hpp"), ("pairs of subspaces, projection, selection rules", "c++/algo.hpp")], ("inputs", "configurations"), "weight_report(), which prints sums to the console, is skipped for complex scalars. Dependence on the partition functions is concrete (one value).")

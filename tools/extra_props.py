PROPS += [
 ("C16", "1D quantum dots solve their grid Schroedinger equation",
  "For every potential, grid and number of states, the 1D quantum dot basis holds the lowest eigenvalues of the three-point finite-difference Hamiltonian -1/2 d^2/dx^2 + V(x) on the interior points of an equidistant grid from -L to L as a diagonal one-body matrix, with identity overlap; the orbitals are the corresponding eigenvectors, zero at both ends and normalised with the grid spacing. Two-body elements are the trapezoid quadrature of phi*_p(x) phi*_q(y) alpha/sqrt((x-y)^2+a^2) phi_r(x) phi_s(y) and dipole elements that of phi*_p (x + beta x^2) phi_q. Requesting more states than interior points is refused.",
  "inputs", "all grid lengths, screening and interaction strengths, beta, and polynomial potentials; grid points and states within the bounds",
  "Tests compare a few systems with stored numbers or loose tolerances, always with beta = 0 and the default interaction.",
  [Q1], [("finite-difference Hamiltonian and quadratures", Q1)]),
 ("C17", "The 1D oscillator basis holds the exact oscillator elements",
  "For every frequency the 1D harmonic-oscillator basis has energies omega (n + 1/2), identity overlap, dipole elements <n|x + beta x^2|m> of the oscillator, and on its grid the normalised oscillator eigenfunctions, which solve -1/2 phi'' + 1/2 omega^2 x^2 phi = E phi at every position. Its two-body elements are the trapezoid quadrature of the shielded Coulomb interaction alpha/sqrt((x-y)^2+a^2) between these orbitals with the bra indices first.",
  "inputs", "all frequencies, grid lengths, beta, strengths and screenings; orbitals and grid points within the bounds",
  "Tests compare only a few numbers for one frequency.",
  [Q1], [("oscillator elements", Q1), ("trapezoid quadratures", Q1)]),
 ("C18", "The sinc-DVR's two- and four-index interactions agree",
  "The sinc-DVR basis has the sinc kinetic energy plus the potential on its grid, diagonal dipole elements x + beta x^2, identity overlap, orbitals 1/sqrt(dx) on their own point, and the shielded Coulomb interaction u(x_p, x_q). Its two-index representation stands for u_pq delta_pr delta_qs, and everything a user computes is the same from either representation: switching back and forth, transforming the elements or changing the basis (default or independent bra coefficients), spin doubling with any spin basis, anti-symmetrisation (exactly once, before or after the conversion), general systems built from it and their Fock matrices, copies, casts and module changes. Unknown representations are refused.",
  "inputs histories", "all elements, coefficients, potentials and grid lengths; all sequences of representation switches within the bounds",
  "Tests compare the two representations for one system size and default parameters.",
  [DV], [("representation switch", DV), ("transformation from two indices", DV)]),
 ("C19", "The magnetic-field oscillator holds the lowest Fock-Darwin states",
  "For an oscillator frequency omega_0 and cyclotron frequency omega_c (either sign) the 2D oscillator in a magnetic field has effective frequency sqrt(omega_0^2 + omega_c^2/4) and holds the l lowest states of energy omega (2n+|m|+1) - omega_c m/2 in ascending order, each once. One-body, Coulomb and dipole elements and the orbitals on the grid all belong to these states with the effective frequency and the mass. The table of states is ordered by energy, leaves out no state at or below its last row, and numbers the energy levels and their degeneracies correctly.",
  "inputs", "all scales, masses and extents; field strengths with rational effective frequency for all elements, and every field strength within the bounds for the choice of states",
  "Tests compare one stored table for a single weak field with unit mass and frequency.",
  [TH, TO], [("table of states", TH), ("basis in a magnetic field", TO)]),
 ("C20", "The Coulomb element cache never changes a result",
  "With the cache switched on (environment variable QS_CACHE_TDHO) the Coulomb elements handed out, and the two-body elements of every basis built from them, are the same as without it for every history of requests of different sizes, frequencies and masses, with the cache switched on or off in between and whatever a caller does with an earlier result. Switched off, nothing is read from or written to the cache. An interrupted write, a failed request or another process that uses the same cache at the same time never makes a later request fail or return other elements.",
  "histories configurations inputs crash_points", "all histories of requests within the bounds, all frequencies, masses and in-place changes of results; a crash or a request of another process at every file operation",
  "The cache is not tested at all.",
  [TH, TO], [("cache of Coulomb elements", TH)]),
 ("C21", "Systems constructed from PySCF hold PySCF's integrals",
  "A system constructed from a PySCF molecule (atomic orbitals or restricted Hartree-Fock orbitals) has the molecule's core Hamiltonian, overlap, electron repulsion in physicists' order <pq|rs> = (pr|qs), the dipole integrals (relative to the charge centre for Hartree-Fock orbitals), nuclear repulsion and electron number, all in the orbitals requested, for every charge, basis kind (spherical or cartesian) and build option handed on. With spin the elements are spin doubled and anti-symmetrised exactly when asked for, otherwise a closed-shell system is returned; an odd number of electrons is refused.",
  "inputs configurations", "all integrals, orbital coefficients, charges and coordinates PySCF can return; basis sizes within the bounds; all combinations of the options",
  "Tests build a few neutral molecules and compare energies.",
  [CU], [("construction from PySCF", CU)]),
 ("C26", "Any history of operations on a basis or system composes",
  "Whatever the order of basis changes (default or independent bra coefficients, changing size or not), spin doublings in any spin frame, anti-symmetrisation requests, copies, casts and module changes, every quantity of the basis (Hamiltonian, overlap, interaction, dipole, orbitals, dual orbitals, spin operators, flags) is the composition of what the single operations specify. For a system the reference energy, Fock matrix, index ranges and the time-dependent Hamiltonian (with a laser field or adiabatic switching set at any point of the history) always belong to its current basis. Objects left behind by copies and by the construction of general systems keep the state they had.",
  "histories inputs", "all histories within the bounds, all elements, one arbitrary coefficient per basis change",
  "Tests exercise one operation at a time on fresh objects.",
  [BS, SY, SP, GO], [("operations on a basis", BS), ("operations on a system", SY), ("construction of the general system", SP)]),
]

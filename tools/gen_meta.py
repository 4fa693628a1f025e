#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from one table."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
Q = "quantum_systems/"
BS, SY, GO, SP = Q + "basis_set.py", Q + "system.py", Q + "general_orbital_system.py", Q + "spatial_orbital_system.py"
TH = Q + "quantum_dots/two_dim/two_dim_helper.py"
CE = Q + "quantum_dots/two_dim/coulomb_elements.py"
TO = Q + "quantum_dots/two_dim/two_dim_ho.py"
P1 = Q + "quantum_dots/one_dim/one_dim_potentials.py"
Q1 = Q + "quantum_dots/one_dim/one_dim_qd.py"
DV = Q + "sinc_dvr/one_dim/sinc_dvr.py"
CU = Q + "custom_system.py"
OP = Q + "time_evolution_operators/operator.py"

PROPS = [
 ("C01", "A change of basis transforms every stored operator",
  "After changing the basis with ket coefficients C and bra coefficients C~ (by default the conjugate transpose of C, square or rectangular, real or complex), the one-body Hamiltonian, overlap, every dipole component and every spin operator are C~ A C of the old ones, and the two-body Hamiltonian and the two-body part of S^2 are transformed in all four indices (bra indices with C~, ket indices with C). The number of orbitals becomes the number of columns of C, the number of particles is kept and the occupied and virtual index ranges follow; operators that were never set stay unset, the coefficients passed in are not modified, and elements stored as whole numbers, real or complex numbers are all treated alike.",
  "inputs histories", "all elements of all operators and of C and C~; all old and new basis sizes within the bounds; the basis object and both kinds of systems; successive changes",
  "The tests transform a handful of random bases with one unitary matrix and compare h and u; the spin operators, independent bra coefficients, rectangular C and the composition of changes are not compared.",
  [BS, SY], [("transformation of one- and two-body elements", BS), ("system size update after a change of basis", SY)]),
 ("C02", "Orbitals and particle densities follow a change of basis",
  "A change of basis maps the stored orbitals to sum_a C[a,p] phi_a and the dual orbitals to sum_a C~[p,a] phi~_a, where the dual orbitals of a basis that never got any are the complex conjugates of the orbitals it holds, also after the orbitals have been set anew. The particle density for a density matrix rho is sum_pq phi~_p(r) rho[q,p] phi_q(r) at every grid point, for real or complex orbitals and density matrices alike, optionally evaluated in transformed orbitals without changing the stored ones. Asking for a density before the orbitals have been set up is refused.",
  "inputs", "all orbitals on all grid points (1 and 2 dimensions), all coefficient and density matrices",
  "Existing tests compare one density of one system with stored numbers.",
  [BS, Q + "system_helper.py"], [("orbital transformation and density", BS), ("density sum", Q + "system_helper.py")]),
 ("C03", "Spin doubling yields two spin orbitals per spatial orbital",
  "Converting a spatial basis of l orbitals to general orbitals gives 2l spin orbitals ordered (orbital 0 up, orbital 0 down, orbital 1 up, ...): one-body operators (h, overlap, dipole) become A_pq times the spin Kronecker delta and two-body elements u_pqrs times the two spin deltas of (p,r) and (q,s); orbitals and dual orbitals on the grid are duplicated. All elements are complex afterwards, and converting a basis that already includes spin changes nothing. Constructing a general system from a closed-shell one does all this on a copy, doubles the number of occupied orbitals and leaves the original untouched.",
  "inputs", "all matrix elements and orbitals, basis sizes and dimensions within the bounds",
  "Tests check sizes and a few random tensors for a fixed convention; not all operators and not the untouched original.",
  [BS, SP, GO], [("spin doubling of the elements", BS), ("construction of the general system", SP)]),
 ("C04", "Anti-symmetrisation happens exactly once",
  "Over any history of spin doublings, (repeated) anti-symmetrisation requests, basis changes and constructions of general systems, the two-body elements (and the two-body part of S^2) are anti-symmetrised, u_pqrs - u_pqsr, exactly once if it was requested at least once and not at all otherwise. The flag that reports this agrees with the stored elements. Anti-symmetrisation commutes with a change of basis.",
  "histories inputs", "all sequences of operations up to the bound with arbitrary elements",
  "Tests only use the default construction order.",
  [BS, GO], [("flag that guards anti-symmetrisation", BS), ("second request in the general system", GO)]),
 ("C05", "Spin operators are those of spin one-half in any orthonormal spin frame",
  "For every orthonormal pair of spin functions (a, b), including complex ones, the Pauli matrices are the matrix elements <a|sigma|b> in that frame and the spin matrices of the doubled basis are half the orbital overlap times the Pauli matrix. They obey the angular momentum algebra, and S^2 as one-body plus two-body part gives 3/4 for one electron, 0 for closed shells and 2 for two parallel spins, also after rotations of an orthonormal basis. A pair (a, b) that is not orthonormal is refused.",
  "inputs", "all U(2) spin frames, all overlap matrices, all pairs that are not orthonormal",
  "Tests use the default frame and one random real basis.",
  [BS], [("Pauli matrices in a spin frame", BS), ("spin-squared operator", BS)]),
 ("C06", "The reference energy is the energy of the reference determinant",
  "The reference energy equals the expectation value of H = h + u in the determinant of the occupied orbitals: sum h_ii + 1/2 sum u_ijij with anti-symmetrised elements for general orbitals and 2 sum h_ii + sum (2 u_ijij - u_ijji) for closed shells. A closed-shell system and the general system constructed from it give the same energy, and rotating occupied orbitals among themselves leaves it unchanged.",
  "inputs", "all matrix elements, all occupations within the bounds, all unitary rotations of two occupied orbitals",
  "Tests compare the energies of a few systems with literature values.",
  [GO, SP], [("reference energy", GO), ("reference energy", SP)]),
 ("C07", "Fock matrices are the mean field of the occupied orbitals",
  "The Fock matrix is h_pq + sum_i u_piqi for general orbitals (anti-symmetrised u) and h_pq + sum_i (2 u_piqi - u_piiq) for closed shells, with i over the occupied orbitals of that system, whether or not an output array with old content is passed in. Real and complex elements may be mixed. Inputs are not modified, the matrix is Hermitian for Hermitian elements, and the Fock matrix of the doubled system is the spin-doubled closed-shell one.",
  "inputs", "all matrix elements, output arrays with arbitrary content, all occupations within the bounds",
  "Tests use one random system per class.",
  [GO, SP], [("Fock matrix", GO), ("Fock matrix", SP)]),
 ("C08", "Particle numbers, orbital numbers and index ranges agree",
  "For every number of particles n and of orbitals l a system exists exactly if the n particles fit (n <= l spin orbitals; for closed shells n even and n/2 <= l), whether the numbers are Python or numpy integers, and then occupied and virtual ranges partition the orbitals: o = [0, occ), v = [occ, l), m = l - occ. This stays true after changes of basis and when a closed-shell system is doubled; a closed-shell system refuses a basis that already includes spin.",
  "inputs histories", "all integers n and l; basis changes to every smaller or larger size within the bounds",
  "Tests use a few (n, l) pairs, all of them plain Python integers.",
  [SY, SP, GO], [("system size bookkeeping", SY)]),
 ("C09", "Time-dependent Hamiltonians add exactly the requested perturbation",
  "With a laser field, h(t) = h + E(t) sum_i e_i(t) d_i (polarised along the first axis by default; pulse and polarisation given as constants or functions of time) and u(t) = u; with adiabatic switching u(t) = f(t) u and h(t) = h; with a custom operator h(t) = h + w(t) W; without an operator both are the static ones. Evaluation at any sequence of times is repeatable, never modifies the stored elements or what was returned earlier, uses the current basis after a basis change, and reports correctly which part is time-dependent. A general system constructed from a closed-shell one carries a time-dependent operator that acts on the new system, while the original keeps acting on its own.",
  "inputs histories", "all elements, pulses, polarisations, weights and times; all orders of evaluation within the bounds",
  "Tests evaluate one pulse shape at a few times.",
  [OP, SY, SP], [("time evolution operators", OP), ("operator handover", SP)]),
 ("C10", "Copies of bases and systems are equal and independent",
  "A copy of a basis set (of every class in the package) or of a system has the same sizes, flags, array module and equal elements, orbitals, spin operators, potential and time-dependent operator. Any later change to the copy (in place, by assignment, change of basis, anti-symmetrisation) leaves the original as it was, and the other way round. Making the copy leaves the original usable and unchanged.",
  "histories inputs", "all elements, all operations of a list applied to either object after the copy",
  "Tests compare a copy directly after it was made.",
  [BS, SY], [("copying with the array module detached", BS), ("copying with the array module detached", SY)]),
 ("C11", "Random basis sets have the symmetries of physical integrals",
  "For every outcome of the random number generator, the one-body Hamiltonian, overlap and every dipole component of a random basis are Hermitian and the two-body elements are symmetric under exchange of the particles, u_pqrs = u_qpsr. Shapes follow the requested size and dimension, and these symmetries survive spin doubling and anti-symmetrised elements change sign under exchange of two indices.",
  "inputs", "all draws of the random number generator",
  "Tests see a few draws.",
  [Q + "random_basis.py"], [("symmetrisation of random elements", Q + "random_basis.py")]),
 ("C12", "The single index of the 2D oscillator enumerates its states",
  "The map from the single index p to the quantum numbers (n, m) is a bijection between the non-negative integers and all pairs n >= 0, m integer; it enumerates shells 2n+|m| in ascending order and within a shell by ascending m, and the reverse map is its inverse. The shell energy is 2n+|m|+1, and the one-body matrix of the oscillator is omega times the shell energy of the p-th state on its diagonal, zero elsewhere, with identity overlap.",
  "inputs", "all integers p up to the bound, all n, m within the bound, all omega and mass",
  "Tests compare a table of the first indices.",
  [TH, TO], [("index maps", TH), ("one-body elements", TH)]),
 ("C13", "2D oscillator Coulomb elements are the exact integrals",
  "The two-body elements <pq|1/r12|rs> of the 2D oscillator equal the Coulomb integrals over its normalised orbitals for every quadruple of states, scaled with the square root of mass times frequency; they vanish unless the total angular momentum is conserved. This holds for the elements returned by the driver function and by every 2D oscillator and double-well basis.",
  "inputs", "all quadruples of states within the bounds, all omega and mass; selection rule for all integers",
  "Tests compare one stored table for omega = 1 and mass = 1.",
  [CE, TH, TO], [("Anisimovas-Matulis sum", CE), ("scaling with the length unit", TO)]),
 ("C14", "2D dipole and double-well elements are the exact integrals",
  "The dipole elements of the 2D oscillator are <p|x|q> and <p|y|q> over its normalised orbitals, and the one-body elements of the 2D double well are <p|H|q> with the potential 1/2 m omega^2 (r^2 + b^2/4 - b|x|), or |y| for the other axis, for every frequency, mass and barrier b. The angular integrals hold for every pair of angular momenta. The double-well matrix is Hermitian and the overlap stays the identity.",
  "inputs", "all omega, mass and barrier strengths; all states within the bounds; all integers m for the angular integrals",
  "Tests compare stored tables for one frequency, unit mass and one barrier.",
  [TH, TO], [("angular and radial integrals", TH), ("dipole elements", TO)]),
 ("C15", "1D potentials and their derivatives are the documented functions",
  "Every one-dimensional potential (oscillator, double wells, Gaussian, hard-wall Gaussian, atomic) returns its documented formula for every position and every parameter, and its derivative method returns the derivative of that value everywhere it exists (the mean of both sides at the kink of the double well). Applied to a grid, a potential acts point by point.",
  "inputs", "all positions and all parameters",
  "Tests evaluate derivatives on one grid with one parameter set per potential.",
  [P1], [("potential formulas", P1)]),
 ("C22", "Sample collection keeps every sample of every sampler",
  "A sample collector calls every one of its samplers exactly once per step in the given order with the given step, and dumping returns (and, when asked, writes to the requested file) a dictionary that contains every sampler's data and every manually added sample. Dumping with saving switched off writes nothing.",
  "histories configurations", "all histories of sample, add and dump calls within the bounds",
  "Not tested at all today.",
  [Q + "sampler.py"], [("collector", Q + "sampler.py")]),
 ("C23", "Element shapes are validated on assignment",
  "Assigning matrix elements, dipole moments, spin operators or orbitals to a basis set succeeds exactly if every axis has the length the basis requires (number of orbitals; number of dimensions for dipole components and grid axes), for all sizes; spin operators are only accepted by a basis that includes spin. A refused assignment leaves the old value in place.",
  "inputs", "all sizes (symbolic axis lengths) for every assignable quantity",
  "Tests never assign a wrong shape.",
  [BS], [("axis checks in the setters", BS)]),
 ("C24", "Casting and changing the array module preserve every value",
  "Casting to complex and converting to an array module keep the value of every stored element, orbital and spin operator, leave unset quantities unset, and casting makes every one of them a double-precision complex array, whatever its type was. Afterwards the basis and its system use the requested module.",
  "inputs histories", "all elements, with and without optional quantities set",
  "Tests do not compare values before and after.",
  [BS, SY], [("module change and cast", BS)]),
 ("C25", "2D oscillator orbitals are its orthonormal eigenfunctions",
  "The orbitals of the 2D oscillator at every point (r, theta) are the normalised eigenfunctions of -1/(2m) Laplacian + 1/2 m omega^2 r^2 with energy omega times the shell energy and angular dependence exp(i m theta), and they are mutually orthonormal. The basis object stores them on its grid of angles (first axis) and radii (second axis), radii from 0 to the requested length and angles from 0 to 2 pi.",
  "inputs", "all positions, frequencies, masses and extents; states within the bounds",
  "Tests compare the orbitals with stored values on one grid for omega = mass = 1.",
  [TH, TO], [("orbital formula", TH), ("orbitals on the grid", TO)]),
]
EXTRA = os.path.join(ROOT, "tools", "extra_props.py")
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())

NOT_APPLICABLE = []

LEVEL_NOTE = ("Bounded symbolic execution of the package's current source: for every input within the bounds stated per "
              "case in the evidence file the solver refutes the negated property on every path; concrete counterexamples "
              "are replayed on the real package. Trusts the numpy/scipy/sympy/numba models in symex/, exact real "
              "arithmetic in place of floating point, and z3. A case the solver cannot decide is reported INCONCLUSIVE "
              "(never as a violation) and backed by concrete runs only.")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for pid, title, st, over, text, why, files, mech in sorted(PROPS):
            assert len(title) <= 80, title
            f.write(json.dumps(dict(
                id=pid, title=title, statement=st,
                quantifier=dict(over=over.split(), text=text),
                why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                             hook_needed=None))) + "\n")
    man = dict(
        version=1, setup_cmd="./check --selftest",
        checks=[dict(property=p[0],
                     quick_cmd="./check %s --tier quick" % p[0],
                     thorough_cmd="./check %s --tier thorough" % p[0],
                     technique="symbolic execution of the source with z3 (SMT)",
                     level="model_checking", level_note=LEVEL_NOTE)
                for p in sorted(PROPS)],
        not_applicable=NOT_APPLICABLE,
        notes="See DESIGN.md. No hooks in /repo; the commits there are repairs (known_findings.txt).")
    json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)


main()

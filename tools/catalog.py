#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from this one catalog (python3 tools/catalog.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'runtime monitoring: '
BASE_NOTE = ('Holds on the executions observed (seeded random and hostile workloads, see evidence); trusts numpy/scipy '
             'and the independent oracle in harness/props/%s.py. ')

P = []


def prop(id_, title, statement, over, text, why, files, mech, technique, note='', state=None):
    P.append(dict(id=id_, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, state=state))


D = 'src/dga/'
prop('C01', 'Matsubara grids and frequency windows are exact index algebra',
     'Cutting, padding, shell-only selection, adding of boundary frequencies, bosonic shifting, symmetrising and '
     'windowed summation of arrays on Matsubara grids return exactly the entries that belong to the requested '
     'fermionic/bosonic frequency indices, along whichever axes are named and for any array rank. A window request '
     'that exceeds the stored grid is reported instead of returning misplaced data, and arrays completed from their '
     'positive half obey f(-v) = conj f(v).',
     ['inputs'], 'all array ranks, axes, window sizes, shifts (positive, negative, per-frequency lists) and conventions',
     'Tests sample one or two window sizes on the last axis; the guarantee is for every rank/axis/size/shift, where '
     'off-by-one errors live.',
     [D + 'matsubara_frequencies.py'],
     [('window cuts, shells, extension', 'matsubara_frequencies.cut_v / inv_cut_v / add_bosonic / concatenate_core_asmypt'),
      ('frequency shifts and conventions', 'matsubara_frequencies.get_freq_shift / cut_v_1d_wn')],
     'index-labelled arrays traced through every grid operation, compared entry by entry')
prop('C02', 'Particle-hole to particle-particle change of notation is exact',
     'Re-expressing a local two-particle vertex from particle-hole to particle-particle frequency notation reads, for '
     'every bosonic pp frequency and every fermionic pair inside the reduced box, exactly the particle-hole entry the '
     'frequency relabelling prescribes, for both supported shift conventions, with any leading axes, and leaves the input untouched.',
     ['inputs'], 'all box sizes, bosonic frequencies inside the allowed range, leading axes',
     'No test exists for this mapping; index errors only show at particular (w,v,v\') combinations.',
     [D + 'matsubara_frequencies.py'], [('pp relabelling', 'matsubara_frequencies.ph2pp_iwn, ph2pp_iwn_wc, convert_*')],
     'unique-entry vertices traced through the relabelling, exact comparison for every pp index')
prop('C03', 'Reduction to the irreducible Brillouin zone loses nothing',
     'For every lattice size and every supported set of point-group operations, any quantity with that symmetry is recovered '
     'exactly on the full zone from its values on the irreducible momenta, every momentum belongs to exactly one irreducible '
     'representative, the multiplicities sum to the number of momenta, and weighted irreducible sums equal full-zone sums. '
     'Symmetrising an arbitrary quantity returns orbit means/representatives and is idempotent.',
     ['inputs', 'configurations'], 'all grid shapes (even, odd, rectangular) and symmetry sets',
     'Tests look at two or three square grids with one symmetry set; wrong multiplicities appear for odd/rectangular grids or other operations.',
     [D + 'brillouin_zone.py'], [('irreducible map', 'brillouin_zone.KGrid.set_irrk_maps / map_irrk2fbz / k_mean'),
                                 ('in-place symmetrisation', 'brillouin_zone.apply_symmetries, KGrid.symmetrize_irrk')],
     'differential against a union-find orbit oracle on random grids and symmetry sets')
prop('C04', 'Momentum shifts on the periodic grid are exact',
     'Shifting a momentum-dependent quantity by any grid vector (negative, wrapping, or at the zone boundary) returns exactly '
     'f(k-q) with periodic boundary conditions, keeps trailing axes, composes, and is undone by the opposite shift; the k-mesh, '
     'its index lookup and the Fermi-surface and quadrant selections refer to the same physical momenta.',
     ['inputs'], 'all grids, transfer momenta and trailing axes', 'Tests do not exercise wrapped or negative transfer momenta on rectangular grids.',
     [D + 'brillouin_zone.py'], [('periodic shift', 'brillouin_zone.shift_mat_by_ind / KGrid.shift_mat_by_ind'), ('masks', 'brillouin_zone.get_bz_masks, find_zeros')],
     'unique-entry meshes traced through shifts, exact comparison')
prop('C05', 'Brillouin-zone paths visit the requested corners in order',
     'A path specification made of named or numeric corner points yields a continuous sequence of momenta on the grid that '
     'begins every segment at its corner and leads straight to the next one, in order (the last point of the path is the step before its end), with positions along the path proportional to distance in momentum space, and values read along the path are '
     'those of the grid momenta it names. Band structures along the path equal the Hamiltonian evaluated there.',
     ['inputs', 'configurations'], 'all path strings (both separators, named/numeric corners) and grid shapes',
     'No unit test covers paths; errors depend on grid shape and segment direction.',
     [D + 'brillouin_zone.py'], [('path construction', 'brillouin_zone.KPath'), ('corner names', 'brillouin_zone.KNOWN_K_POINTS')],
     'labelled meshes read along random paths, compared with an independent corner-to-corner oracle')
prop('C06', 'Lattice Hamiltonian is the Fourier sum of its hoppings',
     'The Hamiltonian on a momentum grid equals the explicit Fourier sum over lattice vectors (with degeneracy weights) for any '
     'number of orbitals and dimensions, is Hermitian when the hoppings are, and the light vertex equals its momentum derivative. '
     'The built-in models (single- and multi-orbital t-t\'-t\'\', quasi-1D/2D, Emery) have the hoppings, on-site terms and closed-form dispersions they are '
     'documented to have for all parameters.',
     ['inputs', 'configurations'], 'random Hermitian real-space models and all built-in model parameters and grids',
     'Tests check one parameter set of a square lattice dispersion.',
     [D + 'wannier.py'], [('Fourier sum', 'wannier.WannierHr.get_ek / convham / convham2'), ('light vertex', 'wannier.light_vertex'), ('models', 'wannier.wannier_one_band_*, one_band_2d_*, wannier_emery_model')],
     'differential against explicit Fourier sums and finite differences')
prop('C07', 'Hamiltonian files round-trip without loss',
     'Writing a real-space or momentum-space Hamiltonian to disk and reading it back returns the same lattice vectors, weights, matrix elements and '
     'momentum grid to the printed precision for any number of orbitals, vectors and points, for all supported headers, and the file is '
     'parseable in the documented column format.',
     ['inputs'], 'random models with 1-3 orbitals and up to tens of lattice vectors, random grids',
     'Tests only read one packaged file.', [D + 'wannier.py'], [('hr files', 'wannier.read_hr_w2k / write_hr_w2k'), ('hk files', 'wannier.write_hk_wannier90 / read_hk_w2k')],
     'write/read history monitor with an independent parser')
prop('C08', 'Self-energy windows: data inside the core, moment tail outside',
     'Whatever frequency window is requested from a self-energy, entries inside the core are the input data unchanged and entries outside are the '
     'high-frequency expansion built from its two leading moments; every window obeys Sigma(-v)=conj Sigma(v), and the same data given as positive half or '
     'full window describe the same object. Automatic core detection never drops frequencies that are not yet asymptotic, and the momentum-dependent '
     'result of a calculation gets the local tail outside the box.',
     ['inputs'], 'causal local/k-dependent self-energies, window sizes, betas, core choices',
     'DMFT-data-based tests use a single self-energy at fixed window sizes.',
     [D + 'two_point.py'], [('tail completion', 'two_point.SelfEnergy.get_siw'), ('moments', 'SelfEnergy.fit_smom'), ('core', 'SelfEnergy.estimate_niv_core')],
     'random causal pole self-energies with analytically known tails')
prop('C09', 'Green\'s function obeys Dyson equation; filling and mu are consistent',
     'The lattice Green\'s function equals 1/(iv + mu - e_k - Sigma) for every momentum and frequency on both axes (Matsubara and real with the stated '
     'broadening), its reported filling matches the exact occupation, and asking for a filling yields a chemical potential that reproduces it and vice versa. '
     'Kinetic, potential energy and local/core/asymptotic windows are those of that same function.',
     ['inputs'], 'random lattices, causal self-energies, temperatures, fillings, window sizes',
     'Tests check one Hubbard DMFT dataset; convergence of the filling search fails only at particular inputs.',
     [D + 'two_point.py'], [('Dyson equation', 'two_point.build_g / GreensFunction'), ('filling search', 'two_point.update_mu, get_fill'), ('energies', 'GreensFunction.e_kin / get_e_kin / e_pot')],
     'exact occupation from diagonalising the equivalent impurity problem, plus direct Dyson residual monitors')
prop('C10', 'Bare bubbles: definition, symmetry, completed tails',
     'The local and momentum-dependent bare susceptibilities equal -beta (or -1/beta summed) times the explicit product of two Green\'s functions for every frequency '
     'convention, bosonic set (also negative, unordered or subsets) and transfer momentum. Their momentum average is the local one, chi0(-w)=conj chi0(w), and the tail-completed sum '
     'converges to the exact infinite sum at the stated order.',
     ['inputs', 'configurations'], 'lattices, self-energies, bosonic frequency sets, conventions, momentum lists, shell sizes',
     'Tests rely on stored DMFT data for one convention and the full bosonic range.',
     [D + 'bubble.py'], [('bubbles', 'bubble.BubbleGenerator.get_chi0 / get_chi0_q / get_chi0q_shell / get_asympt_*')],
     'explicit double sums and exact spectral sums as oracle')
prop('C11', 'Local Bethe-Salpeter algebra is consistent in every box',
     'Irreducible vertex, generalized susceptibility, full vertex, local susceptibility and three-leg vertex are consistent with the Bethe-Salpeter equation for every '
     'channel, bosonic frequency set and core/shell split: converting back and forth restores the input, and the core+shell formulas equal solving the full box and, for '
     'exactly solvable clusters, the exact susceptibility. Mismatched channels, bosonic windows or sizes are rejected.',
     ['inputs', 'configurations'], 'random vertices (with and without symmetries), Green\'s functions, boxes, and exact Hubbard clusters',
     'Tests compare stored data at one box; shell contributions are compared only loosely.',
     [D + 'local_four_point.py'], [('BSE inversion', 'local_four_point.gammar_from_gchir*, gchir_from_gamob2'), ('shell resummation', 'gchi_aux_*, *_uasympt'), ('object checks', 'LocalNPoint.__init__')],
     'explicit full-box inversion plus exact diagonalisation of Hubbard clusters')
prop('C12', 'Local Schwinger-Dyson equation gives the exact self-energy',
     'The self-energy computed from the local vertex is the same whether written with the full vertex or with susceptibility and three-leg vertex, for any box, shell '
     'and bosonic set, and equals the exact self-energy of solvable clusters when fed their exact two-particle Green\'s functions. It obeys conjugation symmetry whenever its inputs do.',
     ['inputs', 'configurations'], 'random vertices and boxes; Hubbard atom and impurity+bath clusters at random U, mu, beta',
     'Tests compare with one stored DMFT self-energy within a percent.',
     [D + 'local_four_point.py', D + 'high_level_routines.py'], [('local SDE', 'local_four_point.schwinger_dyson_*, high_level_routines.local_sde_from_g2')],
     'explicit equation-of-motion sums and exact diagonalisation')
prop('C13', 'Lattice ladder and Schwinger-Dyson equation equal their definitions',
     'Momentum-dependent susceptibilities, three-leg and full vertices in both channels equal the explicit ladder inversion per momentum and frequency, and the lattice self-energy equals '
     'the explicit momentum/frequency sum, regardless of how momenta are split over workers, of using irreducible momenta, or of the order of the list. For a momentum-independent Green\'s function the '
     'lattice quantities reduce to the local ones, and static susceptibilities are real and symmetric.',
     ['inputs', 'configurations'], 'random vertices, lattices in 1-3D, momentum lists and partitions, core/shell splits',
     'Tests use one stored DMFT dataset with few q-points; there is no independent reference.',
     [D + 'four_point.py', D + 'high_level_routines.py'], [('ladder', 'four_point.ladder_susc/get_gchir_aux_asympt_q/get_vrg_and_chir_lad_from_gammar_uasympt_q'), ('SDE', 'four_point.schwinger_dyson_*_q')],
     'explicit ladder inversion and loop sums, flat-band reduction')

exec(open(os.path.join(ROOT, 'tools', 'catalog_more.py')).read()) if os.path.exists(os.path.join(ROOT, 'tools', 'catalog_more.py')) else None

NOT_APPLICABLE = globals().get('NOT_APPLICABLE', [])


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as fh:
        for p in P:
            anchors = {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                       'hook_needed': None}
            if p['state']:
                anchors['state'] = p['state']
            fh.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                                 'anchors': anchors}) + '\n')
    na = {n['property'] for n in NOT_APPLICABLE}
    checks = []
    for p in P:
        if p['id'] in na:
            continue
        assert len(p['title']) <= 80, p['title']
        assert os.path.exists(os.path.join(ROOT, 'harness', 'props', p['id'] + '.py')), p['id']
        checks.append({'property': p['id'], 'quick_cmd': f'bash run.sh {p["id"]}',
                       'thorough_cmd': f'bash run.sh {p["id"]} --tier thorough',
                       'evidence_file': f'evidence/{p["id"]}.json', 'technique': TECH + p['technique'],
                       'level': 'exploration', 'level_note': BASE_NOTE % p['id'] + p['note']})
    man = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': NOT_APPLICABLE,
           'notes': 'Pure Python code base: no build products; every check imports /repo/src as it is. No hooks in /repo are needed '
                    '(the monitors observe through the public API, files on disk and MPI processes).'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fh:
        json.dump(man, fh, indent=1)
        fh.write('\n')


main()

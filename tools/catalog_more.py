prop('C14', 'Full lattice vertex is exact however the work was distributed',
     'The momentum-dependent full vertex assembled from the files written by the individual ranks equals the explicit ladder construction at every momentum and frequency of the full zone, '
     'in both channels, for any number of ranks, any order of writing, and whichever of the other vertices are saved in the same run. Positive and negative bosonic frequencies keep their own values, and '
     'the vertex kept for the optical conductivity holds exactly the requested frequency window.',
     ['inputs', 'configurations', 'schedules'], 'rank counts, write orders, grids, symmetry sets, boxes, frequency windows, saved quantities',
     'No test writes or reads the vertex files; lost signs or swapped components only show for particular windows and partitions.',
     [D + 'four_point.py', D + 'optics.py', D + 'high_level_routines.py', D + 'mpi_aux.py'],
     [('rank files', 'four_point.write_vertex_components / load_vertex_from_rank_files / build_vertex_fq'),
      ('optics vertex', 'optics.write_optics_vertex_components / load_optics_vertex_from_rank_files / build_vertex_for_optical_conductivity'),
      ('driver', 'four_point.get_vrg_and_chir_lad_from_gammar_uasympt_q')],
     'simulated ranks write real HDF5 files, the assembled arrays are audited entry by entry against the explicit vertex',
     'The ranks are simulated one after another through the real file layer; C20 runs them under real MPI.')
prop('C15', 'Pairing vertex equals its definition and is Hermitian',
     'The singlet and triplet pairing vertices equal, entry by entry, the prescribed combination of the density and magnetic ladder vertices at zero particle-particle frequency (bosonic argument v-v\'), '
     'for any core size, lattice reduction, number of ranks and order of writing. They are Hermitian in the two fermionic frequencies at every momentum.',
     ['inputs', 'configurations', 'schedules'], 'random and physical ladder vertices, grids, boxes and rank counts',
     'No test covers it; a wrong bosonic index in v-v\' or a lost rank is invisible on small boxes.',
     [D + 'pairing_vertex.py', D + 'four_point.py'],
     [('frequency selection', 'pairing_vertex.get_omega_condition / get_pp_slice_4pt / reshape_chi'),
      ('assembly', 'pairing_vertex.write_pairing_vertex_components / load_pairing_vertex_from_rank_files / build_pairing_vertex')],
     'entry-by-entry reconstruction of vertices assembled from files written by simulated ranks')
prop('C16', 'Lambda correction enforces the sum rule with a positive susceptibility',
     'After the lambda correction the momentum and frequency sum of the lattice susceptibility equals the local one in each corrected channel (for the spin-only variant: the sum of both channels), '
     'the corrected static susceptibility is positive everywhere even if the uncorrected one had diverged, and the correction is one constant shift of the inverse susceptibility per channel. '
     'If the sum rule already holds the shift is zero, channels that are not to be corrected are untouched, inputs are not modified and unknown variants are rejected.',
     ['inputs', 'histories'], 'random ladder susceptibilities, with and without diverged static parts, and random targets',
     'Tests use one stored susceptibility; elsewhere the root search may end in an unphysical branch or not converge.',
     [D + 'lambda_correction.py'], [('root search', 'lambda_correction.lambda_correction_single / get_lambda_start'), ('variants', 'lambda_correction.lambda_correction'), ('shift', 'lambda_correction.use_lambda')],
     'sum-rule and positivity monitors on the returned susceptibilities, bisection as oracle')
prop('C17', 'Eliashberg solver returns eigenpairs, the leading one first',
     'Every returned eigenvalue and gap function satisfies the linearised Eliashberg equation for the given pairing vertex and Green\'s function; the first is the largest eigenvalue (also when repulsive, negative eigenvalues dominate), and '
     'further gaps are distinct eigenvectors, orthogonal in the |G|^2 weight. A start in a symmetry sector (d-wave, p-wave, even/odd in frequency) stays in that sector and a symmetrised vertex gives singlet gaps even and triplet gaps odd in frequency; '
     'unknown channels are rejected and the initial guess is not modified.',
     ['inputs', 'histories'], 'random Hermitian pairing vertices, Green\'s functions, grids, start vectors and symmetry sectors',
     'Tests only look at the first eigenvalue of one dataset.',
     [D + 'eliashberg_equation.py'], [('power iteration', 'eliashberg_equation.EliashberPowerIteration'), ('orthogonalisation', 'eliashberg_equation.gram_schmidt_eliash'),
                                      ('driver', 'eliashberg_equation.linear_eliashberg / get_gap_start / symmetrize_gamma')],
     'residual, ordering, orthogonality and symmetry monitors with dense diagonalisation as oracle',
     'Spectra whose power iteration converges slowly (ratio > 0.95) are generated but only counted.')
prop('C18', 'Current-current response equals its definition',
     'The optical bubble equals the explicit momentum and frequency sum over light vertices and Green\'s functions for every pair of directions, grid, window and bosonic frequency, and the vertex contribution '
     'equals the explicit double sum over the full vertex, additive over any partition of the momenta. The real-frequency bubble and conductivity equal their spectral sums and are consistent with the Matsubara response.',
     ['inputs', 'configurations'], 'random lattices, hoppings, self-energies, windows and momentum partitions', 'No test covers optics.',
     [D + 'optics.py'], [('bubble', 'optics.get_chijj_bubble / vec_get_chijj_bubble'), ('vertex part', 'optics.get_chijj_vertex / vec_get_chijj_vert / get_vmw_v_slice'),
                         ('real axis', 'optics.vec_get_chijj_bubble_realf / vec_get_sigma_bub_realf')],
     'explicit sums and spectral representation as oracle')
prop('C19', 'Distribution over MPI processes neither loses, repeats nor reorders work',
     'For any number of tasks and processes, every task is handed to exactly one process, the shares differ by at most one and are contiguous and ordered. Gathering, scattering, all-gathering, broadcasting and reducing '
     'distributed arrays of any trailing shape and numeric type return, on the processes that are to get the result, exactly the values a single process would have, in task order, for every root and any relative timing of the processes. '
     'Each process owns its file, which only deletion removes, and a run neither hangs nor mixes up files of different distributors.',
     ['inputs', 'schedules', 'configurations'], 'process counts 1-8 (real) and 1-64 (simulated), task counts, types, trailing shapes, roots, random delays between collectives',
     'No test runs under MPI with more than one process.',
     [D + 'mpi_aux.py'], [('partition', 'mpi_aux.MpiDistributor.distribute_tasks'), ('collectives', 'mpi_aux.MpiDistributor.gather / scatter / allgather / allreduce / bcast'), ('files', 'mpi_aux.MpiDistributor.__enter__ / delete_file')],
     'event logs of real MPI processes with injected delays, audited offline for exactly-once, order and value')
prop('C20', 'A whole DGA run reproduces the method, whatever the parallelisation and options',
     'For any consistent DMFT input and configuration, the files a run writes (irreducible vertices, local and lambda-corrected susceptibilities, lambda, self-energy, Green\'s function, chemical potential, energies, and if requested three-leg, full, pairing and optics '
     'vertices, Eliashberg pairs, conductivities and polynomial fits) equal the values of the DGA equations on the full meshes of fermionic and bosonic momenta (the latter possibly coarser). They do not depend on the number of processes, on which valid lattice symmetries are used, on which other outputs are requested, or on whether '
     'the box is given or inferred; without hopping the DGA self-energy is the DMFT one. A run creates exactly one new output folder, leaves earlier results untouched and keeps rank files only on request.',
     ['inputs', 'configurations', 'schedules', 'histories'], 'physical inputs (temperature, interaction, filling, hopping, noise), boxes, meshes, lambda variants, symmetry settings, 1-8 processes, output options',
     'No test executes the main program; errors in the glue between the tested pieces, or that need several processes, are invisible to them.',
     [D + 'dga_main.py', D + 'dga_io.py', D + 'high_level_routines.py', D + 'config.py', D + 'four_point.py', D + 'two_point.py', D + 'plotting.py'],
     [('main program', 'dga_main.main'), ('driver routines', 'high_level_routines.*'), ('saved results', 'dga_io.default_siwk_checks / default_giwk_checks / dga_poly_fit'), ('box sizes', 'config.BoxSizes / OpticsConfig.set_frequency_ranges')],
     'real mpirun executions of the production entry point, all written files audited against an independent recomputation and against each other',
     'Small lattices (4x4 to 6x6) and boxes; figures are rendered in one case per run and muted otherwise.')
prop('C21', 'Output never overwrites and reads back faithfully',
     'Every run gets a new, numbered folder next to the requested name and touches nothing that existed before, for any number of processes, which all use the folder root chose. Data, dictionaries and numbers saved under a name are '
     'loaded with the same value, type and shape; settings written next to the results are the settings that were used. The log contains each message of the root process exactly once and in order, and nothing of the others.',
     ['inputs', 'histories', 'schedules'], 'existing folder trees, names, repeated runs, data types and shapes, settings, process counts and delays',
     'No test covers the output layer; a lost result or a silently altered setting only shows for particular names, shapes or histories.',
     [D + 'config.py', D + 'util.py', D + 'loggers.py', D + 'dga_io.py'],
     [('fresh folders', 'util.uniquify, config.OutputConfig.set_output_path, DgaConfig.create_folders'), ('round trip', 'config.OutputConfig.save_data / load_data / clean_data / to_yaml, save_config_file'), ('log', 'loggers.MpiLogger')],
     'before/after snapshots of the file system and round-trip monitors on the real output layer, also under real mpirun with injected delays')
prop('C22', 'A configuration file means what it says',
     'Every documented option that is given is the one used, every omitted one takes its documented default, in any order and for every process; sections override general settings. Box sizes and frequency ranges that are not given follow from the '
     'vertex and the given ones. Contradictions are rejected: boxes or ranges larger than what is available, unknown symmetries, lattice and mesh types, a missing lattice, bosonic momenta not contained in the fermionic mesh, and more processes than irreducible momenta of either mesh.',
     ['inputs', 'configurations'], 'all documented options, given or left out, valid and invalid values, vertex sizes, process counts',
     'Tests never construct a configuration; an ignored or misread option produces plausible results for different parameters.',
     [D + 'config.py', D + 'analytic_continuation.py', 'src/cli/dga_config_generator.py', 'config_templates/dga_config.yaml'],
     [('sections', 'config.DgaConfig, LatticeConfig, EliashbergConfig, OpticsConfig, DebugConfig'), ('box sizes', 'config.BoxSizes.set_from_lfp, OpticsConfig.set_frequency_ranges'), ('continuation settings', 'config.MaxEntConfig, analytic_continuation.MaxEnt / get_w_mesh'),
      ('command line', 'config.parse_config_file, cli.dga_config_generator')],
     'effective settings of generated configurations compared with a reference interpretation and with the documented template')

prop('C23', 'DMFT input is used exactly as it is in the files',
     'Whatever the supported file format (w2dynamics, exact diagonalisation, numpy) and however many atoms and iterations the file holds, a run works with the Green\'s function, self-energy, density, temperature, interaction, chemical potential and '
     'two-particle Green\'s functions on file: spin-averaged, the vertex cut symmetrically to the requested box (and symmetrised in the fermionic frequencies only if asked). The copy stored with the results is what was used, '
     'input files stay unchanged, and unknown formats, missing files and malformed vertices are rejected.',
     ['inputs', 'configurations'], 'formats, atoms, iterations, boxes, spin noise, missing density, vertex sizes',
     'Tests load one stored file; an offset by one frequency, a wrong atom or a missing average gives plausible numbers.',
     [D + 'dga_io.py', D + 'w2dyn_aux_dga.py', D + 'local_four_point.py'],
     [('formats', 'dga_io.load_1p_data / get_ed_data / get_w2dyn_data'), ('vertex', 'dga_io.build_g2_obj, local_four_point.get_g2_from_dmft_input'), ('readers', 'w2dyn_aux_dga.W2dynFile / W2dynG4iwFile / W2dynThreeLeg'), ('stored input', 'dga_io.create_dmft_ddict')],
     'generated files in each format, loaded values compared entry by entry with what was written')
prop('C24', 'Worm symmetrisation gives the density and magnetic components',
     'From the components of an impurity solver run, for any number of atoms and bands, one, two or three frequencies, worm group and orbital symmetry, the tool writes for every band combination the density (uu+ud) and magnetic (uu-ud) component, averaged over '
     'spin flips and equivalent orbitals, at the frequency it belongs to; the DGA run reads the same values back. Compound indices map one to one to bands and spins. The input and existing output files are never changed and inconsistent symmetries are rejected.',
     ['inputs', 'histories'], 'atoms, bands, orbital symmetries, frequency counts, worm groups, missing (NaN) entries, file names',
     'No test covers the tool; a swapped spin component or a band averaged with the wrong one only shows for many-band or spin-dependent data.',
     [D + 'symmetrize.py', D + 'w2dyn_aux_dga.py', 'src/cli/sym1b.py'],
     [('averaging', 'symmetrize.get_symgroups / read_and_add / main'), ('indices', 'symmetrize.index2component_general / component2index_band'), ('command line', 'cli.sym1b'), ('reader', 'w2dyn_aux_dga.W2dynG4iwFile')],
     'random component files, the written file audited component by component against the defining averages, also through the command line tool')

prop('C25', 'A continued spectrum explains its Matsubara data',
     'The continuation of any self-energy, Green\'s function or susceptibility is a non-negative density on the requested real-frequency mesh that reproduces the Matsubara data within the stated error, has its norm, and whose real part is the Kramers-Kronig '
     'partner, with the static part (Hartree, chi(0)) restored. Only the frequencies inside the fit range count, each data set is continued for itself, wherever it stands in a list and on whichever process, and a data set that cannot be continued is marked as such '
     'without affecting others. Equivalent data (rescaled energy, particle-hole mirrored) give equivalent spectra.',
     ['inputs', 'configurations', 'schedules'], 'spectra, temperatures, meshes, alpha methods, blur, errors, amounts of data, positions in the list, 1-5 processes',
     'No test continues anything; a spectrum always looks plausible, only its back-transform tells whether it belongs to the data.',
     [D + 'analytic_continuation.py', 'src/ana_cont/continuation.py', 'src/ana_cont/solvers.py', 'src/ana_cont/kernels.py'],
     [('settings and meshes', 'analytic_continuation.MaxEnt / get_w_mesh'), ('drivers', 'analytic_continuation.MaxEnt.analytic_cont_list / mpi_ana_cont / max_ent_loc_bw_range / max_ent'), ('real part', 'analytic_continuation kkt, continuation.GreensFunction')],
     'back-transform, sum-rule and Kramers-Kronig oracles on continued random spectra, and metamorphic runs, also under real MPI')
prop('C26', 'The continuation program continues each momentum\'s own data',
     'Continuing a finished DGA run writes, for each requested quantity and every momentum of its full mesh, the continuation of that momentum\'s data with the settings of the run or the given overrides, independent of the number of processes; the Green\'s function '
     'built from the continued self-energy holds the filling. A further continuation never touches the run\'s files or earlier continuations.',
     ['inputs', 'configurations', 'schedules', 'histories'], 'lattice symmetries, grids (bosonic ones also coarser), boxes, sections, overrides, process counts, repeated continuations',
     'No test runs the program; momenta assigned to the wrong k-point or the wrong mesh only show with several momenta and processes.',
     [D + 'dga_max_ent.py', D + 'analytic_continuation.py', D + 'config.py', D + 'two_point.py'],
     [('program', 'dga_max_ent.main'), ('per quantity', 'analytic_continuation.mpi_ana_cont / save_and_plot_cont_*'), ('filling', 'two_point.RealFrequencyGF / adjust_mu_real_f')],
     'production program run under mpirun on synthetic and real run folders; every saved array compared with the continuation of its own data')
prop('C27', 'The maximum entropy solver returns the optimum it defines',
     'For every kernel, default model, error (also correlated), blur, mesh and number of data, at the alpha it reports the solver returns the spectrum that maximises alpha*S - chi2/2, positive (or with both signs for offdiagonal elements), with '
     'chi2, entropy, norm and back-transform belonging to it. Historic, classic, Bryan and chi2kink choose the alpha their definition names, equivalent descriptions of the data give the same spectrum, and data or options that make no sense are refused, not looped on.',
     ['inputs', 'configurations'], 'kernels, data, errors and covariances, default models, blur, meshes, alpha methods and ranges, unfittable data',
     'No test runs the solver; an optimiser that stops early or a prior mixed up still gives smooth, positive and plausible spectra.',
     ['src/ana_cont/solvers.py', 'src/ana_cont/kernels.py', 'src/ana_cont/continuation.py'],
     [('optimisation', 'solvers.MaxentSolverSVD.maxent_optimization / compute_f_J_diag / offdiag'), ('alpha', 'MaxentSolverSVD.solve_historic / solve_classic / solve_bryan / solve_chi2kink'), ('kernels', 'kernels.Kernel'),
      ('problem set-up', 'continuation.AnalyticContinuationProblem'), ('Kramers-Kronig', 'continuation.GreensFunction')],
     'spectrum compared with the maximum from an independent convex dual, audit of the logged alpha path, time-limited runs on hopeless data',
     'Error propagation and the Pade of ana_cont (needs a compiled module) are left out.')
prop('C28', 'Low-energy and correlation-length fits return the parameters of the data',
     'For any self-energy or Green\'s function, temperature, order and number of fit points, the values written for the Fermi level (band shift, scattering rate, quasi-particle weight) are those of the least-squares polynomial through exactly the requested lowest positive '
     'frequencies, for each momentum of the full mesh its own; a polynomial is reproduced exactly, and the weight lies in (0, 1], being 1 where the data allow none. The amplitude and correlation length written for the static magnetic susceptibility are the least-squares '
     'Ornstein-Zernicke parameters around (pi, pi, 0), exact data give back their own, and data that cannot be fitted are marked by -1. Figures are handed the same numbers, inputs stay unchanged.',
     ['inputs', 'configurations'], 'polynomials and causal self-energies, fit orders and ranges, temperatures, grids with and without symmetries, susceptibilities with noise or without a fit',
     'No test fits anything; wrong signs, momenta or frequency ranges give plausible numbers.',
     [D + 'analytic_continuation.py', D + 'dga_io.py', D + 'ornstein_zernicke_function.py'],
     [('extrapolation', 'analytic_continuation.poly_extrap_0 / get_gamma_bandshift_z / extract_coeff_on_ind'), ('files', 'dga_io.poly_fit / dmft_poly_fit / dga_poly_fit'),
      ('correlation length', 'dga_io.fit_and_plot_oz, ornstein_zernicke_function')],
     'closed forms for exact data, independent QR least squares and residual scans otherwise, on values returned and read back from the files')
prop('C29', 'Pade approximants recover rational functions and interpolate any data',
     'From values at complex frequencies, in any order and number, the continued fraction (Thiele, also as solver class), the matrix form and the non-linear fit return the rational function the data belong to wherever it is evaluated; as many coefficients as points interpolate arbitrary data. '
     'Several functions are continued independently of each other, mirrored frequencies carry the conjugate values, the averaged continuation is the mean of the physical ones closest to the others, inputs are unchanged and impossible requests are refused.',
     ['inputs', 'configurations'], 'poles, residues, points, orders, numbers of functions, mirrored points, noise',
     'No test covers the module; it could not even be run with the installed numpy.',
     [D + 'pade_aux.py'], [('continued fraction', 'pade_aux.padeThiele / compute_coefficients / C / PadeSolver'), ('matrix', 'pade_aux.padeMatrix / epade / padeNonlinear'), ('driver', 'pade_aux.acPade / pick_points / pade')],
     'the function itself and the interpolated data as oracle, with the tolerance given by the measured conditioning of each case')
prop('C30', 'Figures show the data they are named after, at the right place',
     'In every figure a run or a continuation saves, the picture shows at each momentum and frequency the value of the named quantity there: kx and ky, real and imaginary part, the two fermionic frequencies, density and magnetic channel are not exchanged, and the shift of the zone centre is '
     'the one of the axis. Lines run through the data at their frequencies, momentum paths pass the points their ticks name, and marks of Fermi surface or maxima lie where the data have them. No quantity overwrites the figure of another, and figures of three-dimensional lattices can be drawn.',
     ['inputs', 'configurations'], 'random data without symmetry, meshes with different extents, frequency boxes, paths, symmetries of the lattice',
     'No test looks at a figure, and symmetric data look the same with their axes exchanged.',
     [D + 'plotting.py', D + 'high_level_plotting.py', D + 'local_four_point.py', D + 'optics.py', D + 'dga_io.py', D + 'dga_max_ent.py'],
     [('momentum maps', 'plotting.plot_kx_ky / plot_siwk_extrap / plot_gap_function_kx_ky / plot_cont_fs / plot_cont_fs_no_shift'), ('frequencies', 'local_four_point.plot_fourpoint_nu_nup, plotting.sigma_loc_checks / chi_checks, optics.plot_opt_cond_*'),
      ('paths', 'high_level_plotting.plot_real_frequency_dispersion / plot_chi_along_kpath'), ('which data', 'dga_io.chiq_checks / default_siwk_checks / default_giwk_checks / poly_fit, dga_max_ent.main')],
     'figures intercepted when saved; the artists are read back and compared with the data they were made from',
     'Colours, limits of the axes and rendering are not looked at.')
prop('C31', 'Continued self-energies are analysed at the filling and the momenta shown',
     'For any finished run with a continued self-energy on a square mesh, the analysis program writes, beside the continuation, the Green\'s function of that self-energy (with the documented lower cut-off of the damping) at a chemical potential at which it holds the electrons of the run, and the '
     'chemical potential at which the band without self-energy holds them. In its figure every map shows at each momentum the value there, the cuts show the momenta of the paths drawn in the map, and the energy curves belong to the crossings marked in it, which are the points of each path '
     'closest to the Fermi surface. The inputs stay unchanged.',
     ['inputs', 'configurations'], 'bands, self-energies without lattice symmetry, even and odd meshes, linear and tangent frequency meshes, fillings, initial chemical potentials, folders, paths',
     'No test runs the program; symmetric data hide exchanged axes and neighbouring momenta.',
     ['src/postproc/plot_siwk_cont.py', 'src/postproc/real_frequency_two_point.py', 'src/postproc/util.py'],
     [('program', 'plot_siwk_cont.main'), ('filling', 'real_frequency_two_point.adjust_mu / get_mu_band / get_filling / get_giwk'), ('crossings', 'util.find_fermi_crossing')],
     'production program on synthetic run folders; files and the artists of its figure compared with the definition evaluated at the momentum shown',
     'Square meshes only, as the program supports; which of several Fermi-surface polygons is traced is left to the contour finder.')

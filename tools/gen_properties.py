#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))

p('K01', 'Kinematic conversion is relativistically consistent',
  "For every physically admissible value of exactly one of the eight kinematic inputs (momentum, velocity, energy, kinetic energy, beta*gamma, beta, gamma, Brho), every positive particle mass (or the default electron) and every combination of mass, input and output unit (SI or eV), the converter returns values with 0 <= beta < 1, gamma = 1/sqrt(1-beta^2), velocity = beta c, betagamma = beta*gamma, energy = gamma m c^2, kenergy = (gamma-1) m c^2, momentum = beta gamma m c and Brho = momentum/(elementary charge) in T m, in the selected output unit. The quantity that was supplied comes back (in the output unit) with the value that was supplied. Velocity, beta, gamma, betagamma and Brho have one unit only and are not changed by the unit options.",
  ['inputs', 'configurations'], 'all admissible real values of each input kind, all positive masses, all 8 unit configurations',
  'tests sample one electron and one proton value per quantity and unit; the relations must hold for all reals and all unit combinations',
  ['rsbeams/rsstats/kinematic.py'],
  [('start_* / calculate_* / _unit_convert', 'rsbeams/rsstats/kinematic.py:Converter')],
  observe=['dict returned by calling a Converter'])

p('K02', 'Kinematic report echoes its inputs in labelled units and is repeatable',
  "The report of the converter names the supplied quantity and gives its value exactly as it was supplied, with the unit it was supplied in, and gives the particle mass as supplied (electron mass by default) in the unit of the reported mass label (eV/c^2 or kg), whatever the other unit options are. Calling the same converter again returns the same values as the first call. Construction is refused unless exactly one kinematic quantity is given and every unit option is 'SI' or 'eV'.",
  ['inputs', 'configurations', 'histories'], 'all input kinds and values, masses, 8 unit configurations, and any number of calls of one converter',
  'tests never look at the mass/input echo and never call a converter twice',
  ['rsbeams/rsstats/kinematic.py'],
  [('outputs dictionary', 'rsbeams/rsstats/kinematic.py:Converter.__init__'), ('__call__', 'rsbeams/rsstats/kinematic.py:Converter.__call__')],
  observe=['dict returned by calling a Converter, first and later calls'])

p('S01', 'Six-dimensional beam statistics equal their definitions and leave data unchanged',
  "For every 6 x N array of particle coordinates with N >= 1, the reported average, variance, rms, minimum, maximum and 6 x 6 covariance matrix equal the textbook (population, 1/N) definitions over all N particles, and computing any of them leaves the array unchanged. Removing the average subtracts exactly the average from every particle of each coordinate, and normalising divides each coordinate by its (non-zero) rms value. Rounding a non-zero number to n significant figures returns a number within half a unit of the n-th figure of it, and rounding zero gives 0.",
  ['inputs'], 'all particle counts N >= 1 and all real coordinates',
  'tests compare one random array at loose tolerance; the one-pass recurrences must equal the definitions for every N and the frame condition is never tested',
  ['rsbeams/rsstats/stats6d.py'],
  [('calc_variance6d (one-pass update)', 'rsbeams/rsstats/stats6d.py'), ('calc_correlations6d', 'rsbeams/rsstats/stats6d.py')],
  observe=['return values and the array argument after the call'])

p('S02', 'Removing correlations diagonalises the covariance by a rotation',
  "For every 6 x N particle array, the eigen-solver applied to the covariance matrix returns real eigenvalues and an orthogonal matrix of eigenvectors (or raises an exception), and it does so for every real symmetric 6 x 6 matrix. Removing correlations replaces every particle by its image under one common orthogonal transformation such that the covariance of the new array is diagonal with those eigenvalues.",
  ['inputs'], 'all real symmetric 6 x 6 matrices and all particle arrays',
  'no test calls the eigen-solver; its Jacobi sweep has many branches that a sampled matrix may not take',
  ['rsbeams/rsstats/stats6d.py'],
  [('jacobi_eigen_solver6d', 'rsbeams/rsstats/stats6d.py'), ('rm_correlations6d', 'rsbeams/rsstats/stats6d.py')],
  observe=['return values; array after rm_correlations6d'])

p('S03', 'Generated 6D distributions are normalised, centred and uncorrelated',
  "For every particle count for which it succeeds and every positive cut-off, a newly generated uniform or gaussian 6D distribution has zero mean and unit rms in each of its six coordinates and zero correlation between any two of them. Every draw that enters the sample satisfies the acceptance rule: inside the unit sphere in position and in momentum for 'uniform', squared value below the cut-off for 'gaussian'. Unsupported distribution types and non-positive cut-offs are refused with an error that says so.",
  ['inputs', 'configurations'], 'all particle counts, seeds and cut-offs',
  'the existing test only checks that construction runs; the guarantee depends on the whole clean-up pipeline for any sample',
  ['rsbeams/rsptcls/RsDistrib6D.py', 'rsbeams/rsstats/stats6d.py'],
  [('clean_phase_space_6d', 'rsbeams/rsptcls/RsDistrib6D.py'), ('make_unif_distrib / make_gauss_distrib', 'rsbeams/rsptcls/RsDistrib6D.py')],
  observe=['phase space array of a new RsDistrib6D'])

p('T01', 'A matched distribution has exactly the Twiss parameters it was asked for',
  "Applying Twiss parameters (alpha, beta > 0, emittance > 0) to a normalised uncorrelated distribution gives, in each of the three planes, the covariance emittance * [[beta, -alpha], [-alpha, (1+alpha^2)/beta]] and no correlation between planes. Computing the Twiss parameters of a distribution returns alpha, beta, gamma and rms emittance such that the 2 x 2 covariance of each plane equals that same matrix, and is refused when a plane's emittance is not positive. A Twiss record keeps gamma = (1+alpha^2)/beta.",
  ['inputs'], 'all real alpha, positive beta and emittance, including round phase-space ellipses and both signs of alpha',
  'the test uses one parameter set; the construction branches on sign and relative size of alpha, beta and gamma',
  ['rsbeams/rsptcls/RsDistrib6D.py', 'rsbeams/rsptcls/RsTwiss2D.py', 'rsbeams/rsptcls/RsPtclBeam6D.py'],
  [('make_twiss_dist_6d / calc_twiss6d', 'rsbeams/rsptcls/RsDistrib6D.py')],
  observe=['covariance of the phase space array; the returned Twiss records'])

p('T02', 'Beam reference quantities are relativistically consistent',
  "For every beam with design momentum p > 0 (eV/c) and mass m > 0 (eV/c^2), beta*gamma = p/m, gamma^2 = 1 + (beta gamma)^2 and beta = beta*gamma/gamma, and the reported rms peak current equals total charge times beta c divided by the rms length of the beam. The beam reports back the design momentum, charge, mass and Twiss parameters it was built from.",
  ['inputs'], 'all positive momenta, masses, charges and particle arrays',
  'no stable test covers the class at all',
  ['rsbeams/rsptcls/RsPtclBeam6D.py'],
  [('get_gamma0 / get_beta0 / get_peak_current_rms', 'rsbeams/rsptcls/RsPtclBeam6D.py')],
  observe=['getter results'])

p('H01', 'Phase-space container keeps its shape, components and file round trip',
  "A phase-space container always holds six rows and as many columns as its particle count; non-positive counts, empty file names and arrays of any other shape are refused by its setters or its check. The component accessors return exactly the coordinates x, xp, y, yp, s and dp of the held array, adding an offset to or multiplying a component of a distribution changes that component only, for component numbers 0 to 5 and no other. Writing the array to a file and reading it into another container restores the same array and particle count.",
  ['inputs', 'histories'], 'all particle counts, contents and sequences of set, offset, multiply, write and read operations',
  'tests exercise one fixed array',
  ['rsbeams/rsptcls/RsPhaseSpace6D.py', 'rsbeams/rsptcls/RsDistrib6D.py', 'rsbeams/rsptcls/species.py'],
  [('check_array', 'rsbeams/rsptcls/RsPhaseSpace6D.py'), ('offset_component / multiply_component', 'rsbeams/rsptcls/RsDistrib6D.py')],
  observe=['accessors, array and file contents'])

p('D01', 'Inverse-transform sampling uses the true cumulative distribution',
  "For every sequence of non-negative weights with positive sum, the cumulative distribution has the same length, its k-th value equals the sum of the first k weights divided by the total, so it never decreases and ends at 1. The distribution function is evaluated on the caller's grid with the caller's extra arguments. Sampling with numeric inversion returns grid points only, each one the first grid point whose cumulative value is not below the uniform number drawn, and sampling with interpolation returns the value of the interpolated inverse there; unsupported method or inversion names are refused.",
  ['inputs', 'configurations'], 'all weight sequences, grids, sample counts, argument tuples and draws',
  'there is no test of this module',
  ['rsbeams/rsstats/sample.py'],
  [('_calculate_cdf / cdf_on_grid / sample', 'rsbeams/rsstats/sample.py')],
  observe=['returned arrays'])

p('B01', 'Linear bunches follow the requested Twiss parameters and emittances',
  "Every particle of a KV bunch lies on the Courant-Snyder shell: gx x^2 + 2 ax x xp + bx xp^2 plus the same expression in y equals 8 times the planar emittance, for any alphas and positive betas of the two planes; a KV bunch with unequal planar emittances is refused. A Gaussian bunch scales unit normal draws by sqrt(emit*beta) in position and sqrt(emit*gamma) in angle plane by plane, and the longitudinal coordinates scale them by the requested deviations. Exactly the requested number of particles is made, numbered from 0, and with quiet start (particle count a multiple of four) the transverse centroid is exactly zero.",
  ['inputs', 'configurations'], 'all particle counts, Twiss parameters, emittances and random draws',
  'there is no test of this module',
  ['rsbeams/rsptcls/bunch.py'],
  [('distribute_KV / distribute_Gaussian / exact_centroids', 'rsbeams/rsptcls/bunch.py:StandardBunch')],
  observe=['particles array'])

p('B02', 'Bunch Twiss settings stay self-consistent under every sequence of changes',
  "After any sequence of settings of betax, betay (positive), alphax and alphay on a linear bunch, directly or through the transverse set-up call, each reads back as last set for its own plane, and each plane's gamma equals (1+alpha^2)/beta. For a bunch matched to a nonlinear insert, setting one beta sets both and each plane's gamma follows its own alpha. Negative betas (and negative aperture, strength and cut-off parameters for the nonlinear bunch, negative aperture for the nonlinear insert) are refused without changing the setting, and accepted values read back as set.",
  ['inputs', 'histories'], 'all sequences of setter calls with all real values',
  'there is no test of this module',
  ['rsbeams/rsptcls/bunch.py', 'rsbeams/rslattice/nonlinear.py'],
  [('property setters', 'rsbeams/rsptcls/bunch.py'), ('c setter', 'rsbeams/rslattice/nonlinear.py')],
  observe=['property getters, print_Twiss, distributions generated afterwards'])

p('B03', 'Nonlinear bunches lie at the requested values of the nonlinear Hamiltonian',
  "For a bunch matched to a nonlinear insert every generated KV particle, expressed in normalised coordinates, has a Danilov-Nagaitsev Hamiltonian equal to the requested emittance; for the waterbag it never exceeds the total emittance and for the truncated Gaussian it never exceeds the total emittance times the cut-off, whatever the random draws. The Hamiltonian is the kinetic part plus the potential, the potential is (x^2+y^2)/2 - t c^2 U(x/c, y/c) with the elliptic potential U = (f2(u)+g2(v))/(u^2-v^2), and it reduces to the linear one for zero strength. Generating a distribution leaves the bunch's Twiss settings and (for waterbag and Gaussian) its total emittance unchanged, and makes exactly the requested number of particles.",
  ['inputs', 'configurations'], 'all strengths, apertures, emittances, betas, alphas and random draws',
  'there is no test of this module',
  ['rsbeams/rsptcls/bunch.py'],
  [('NonlinearBunch.distribute_* / compute_potential', 'rsbeams/rsptcls/bunch.py:NonlinearBunch')],
  observe=['particles array, compute_potential, compute_Hamiltonian'])

p('N01', 'Nonlinear insert slices match the Danilov-Nagaitsev prescription',
  "For every insert length L > 0, phase advance mu with sin(2 pi mu) != 0, strength t, aperture c >= 0 and slice count n >= 1, the slice positions are the n slice centres (i+1/2)L/n, and with f0 = (L/4)(1+cot^2(pi mu)) the betas are L(1 - s(L-s)/(L f0))/sqrt(1-(1-L/(2 f0))^2), with the entrance beta given by s = 0. Each slice has cnll = c sqrt(beta) and knll = (t L/n/beta^2) cnll^2. The generated MAD-X text has exactly one nllens element per slice, in order, carrying that slice's knll and cnll.",
  ['inputs'], 'all real parameters in the stated domain and every slice count',
  'there is no test of this module',
  ['rsbeams/rslattice/nonlinear.py'],
  [('generate_sequence / create_madx', 'rsbeams/rslattice/nonlinear.py')],
  observe=['s_vals, beta0, betas, knll, cnll, create_madx()'])

p('C01', 'Decoherence closed forms equal the integral they stand for',
  "For every turn number n >= 1, offset, tune and amplitude coefficients, the first-order (mu_0 not zero) and the second-order (mu_1 > 0) centroid formulas equal the exact integral over normalised amplitude 0 to 2 pi n of the waterbag centroid integrand, which for any number of coefficients is Z/(2 pi n) times cos(2 pi nu n - sum_k mu_k a^(k+1)/(2 pi n)^k) inside the range and zero above it. At turn 0 the centroid is the initial offset. Computing all centroids gives turns 0 to N-1 in order, using the first-order form for one coefficient, the second-order form for two and numerical integration of that integrand otherwise.",
  ['inputs', 'configurations'], 'all turns, offsets, tunes and coefficient sequences of any length',
  'there is no test of this module',
  ['rsbeams/rsphysics/decoherence.py'],
  [('integrate_first_order / integrate_second_order / _reduced_integrand', 'rsbeams/rsphysics/decoherence.py')],
  observe=['return values'])

p('W01', 'elegant files convert to species coordinates and back without loss',
  "Reading an elegant phase-space file gives, for every particle, x, xp*p, y, yp*p, t*c and p from that file in file order and the charge stated in the file, for any particle count including one and any column order. Writing a species as an elegant file stores x, ux/pt, y, uy/pt, ct/c, pt and the total charge in columns named x, xp, y, yp, t, p with their units, and reading that file again restores the species.",
  ['inputs'], 'all particle counts, coordinates (pt != 0) and charges',
  'tests read one or two fixed files',
  ['rsbeams/rsdata/switchyard.py', 'rsbeams/rsptcls/species.py'],
  [('read_elegant / write_elegant', 'rsbeams/rsdata/switchyard.py')],
  observe=['Species coordinates; columns of the written file'])

p('W02', 'OPAL dumps are read at the step asked for and written completely',
  "Reading an OPAL dump returns the particles (x, px, y, py, z, pz in that order) and total charge of exactly the requested step, step 0 included, and of the highest-numbered step (compared as numbers) when none is requested; a step without charge information is refused. Writing a species in OPAL format stores the particle count on the first line and then every particle's six coordinates, one line each, in order.",
  ['inputs', 'configurations'], 'all sets of step numbers, requested steps, particle counts and coordinates',
  'tests read one dump with the default step',
  ['rsbeams/rsdata/switchyard.py'],
  [('read_opal / write_opal', 'rsbeams/rsdata/switchyard.py')],
  observe=['Species coordinates and charge; text written'])

p('W03', 'Genesis output and species registry preserve the particles',
  "A Genesis distribution file carries the version, total charge, particle count and column names X PX Y PY T P in its header, followed by one line per particle with x, ux, y, uy, the arrival time ct/c measured from the beam average, and pt, in order. Reading a file registers its species under the given name (a default name otherwise) and never replaces a species already registered; writing uses the named species (the default one otherwise) and leaves it unchanged. Unknown formats are refused.",
  ['inputs', 'histories'], 'all species contents and all sequences of read and write calls',
  'tests write one species once',
  ['rsbeams/rsdata/switchyard.py', 'rsbeams/rsptcls/species.py'],
  [('write_genesis / read / write / _species_insert', 'rsbeams/rsdata/switchyard.py')],
  observe=['text written; species registry'])

p('R01', 'SDDS pages are read at the right place, completely and selectively',
  "Reading an SDDS file written in the supported layout (binary or ascii, with or without row counts, little-endian, parameters, fixed-value parameters, numeric and string columns, any number of pages with any row counts) returns for every page the exact parameter and column values in file order. It makes no difference whether the file is buffered in memory or read from disk. When a set of pages is requested, exactly the values of those pages are returned, in order.",
  ['inputs', 'configurations'], 'all headers, page counts, row counts, values and page selections in the supported layout',
  'tests read a handful of files with fixed layouts',
  ['rsbeams/rsdata/SDDS.py', 'rsbeams/rsdata/utils.py', 'rsbeams/rsdata/struct_data.py'],
  [('read / _get_parameter_data / _get_column_data', 'rsbeams/rsdata/SDDS.py:readSDDS')],
  observe=['parameters and columns arrays'])

p('R02', 'SDDS files written by the library read back as what was stored',
  "For every set of parameters (types short, long, double, string) and numeric columns of equal length (types short, long, double), saving in ascii or binary mode and reading the file back returns the same parameter values, fixed values, column values and types, in creation order, to the precision of the stored type. The units, symbols, descriptions and types given for each parameter and column are reported back unchanged (texts hold no line breaks and no '&end'; string parameters of ascii files do not start or end with blanks and hold no '!'). Columns of unequal length are refused before anything is written.",
  ['inputs', 'configurations'], 'all names, types, values, row counts, fixed values (zero included) and both data modes',
  'the writer tests need an external tool and are not stable; none reads back mixed types',
  ['rsbeams/rsdata/SDDS.py'],
  [('writeSDDS.save_sdds / _write_header', 'rsbeams/rsdata/SDDS.py'), ('readSDDS', 'rsbeams/rsdata/SDDS.py')],
  observe=['values read back from the written file'])

p('R03', 'SDDS header entries are parsed field by field',
  "Every parameter, column and data entry of an SDDS header, in whatever order its fields are given and however it is broken over lines or surrounded by comment lines, yields exactly the stated value for each stated field (quoted values keep spaces, commas, equal signs and apostrophes) and the default for each field not stated. Fixed values are converted to the declared type. Unsupported data types and files without the SDDS identification line are refused.",
  ['inputs'], 'all field orders, values, quoting and layouts',
  'tests check some fixed headers',
  ['rsbeams/rsdata/datatypes.py', 'rsbeams/rsdata/utils.py', 'rsbeams/rsdata/SDDS.py'],
  [('Datum.parse_namelist / set_data_type', 'rsbeams/rsdata/datatypes.py'), ('_read_header', 'rsbeams/rsdata/SDDS.py')],
  observe=['parameter_* / column_* accessors'])

p('L01', 'Beamline order, length and element positions are consistent',
  "For every structured beamline, with sub-lines nested to any depth, the flattened element list is the depth-first, left-to-right order in which elements and sub-lines were added, with repeated elements appearing each time, and the beamline length is the sum of their lengths (elements without a length count as zero). The upstream edge of an element occurring once is the sum of the lengths of everything before it. Element parameter names are not case sensitive, editing an element by name or position changes exactly the requested parameters of exactly those elements, and length and edge cannot be assigned.",
  ['inputs', 'histories'], 'all sequences of additions and edits, nesting depths and parameter spellings',
  'there is no test of this module',
  ['rsbeams/rslattice/Beamline.py', 'rsbeams/rslattice/Element.py'],
  [('get_beamline_elements / _get_length / edit_element', 'rsbeams/rslattice/Beamline.py'), ('_get_edge, AgnosticDict', 'rsbeams/rslattice/Element.py')],
  observe=['get_beamline_elements(), length, edge, parameters'])

p('L02', 'Imported Sirepo lattices keep the element order of the source',
  "Importing a beamline from a Sirepo lattice description gives a beamline whose flattened element list is exactly the expansion of the named line: items in order, sub-lines expanded in place every time they occur, and sub-lines with a negative reference expanded in reverse order (recursively). Every element carries the name, type and parameters of its definition with cached expression values substituted, and an unknown beamline name is refused.",
  ['inputs'], 'all acyclic line definitions with any nesting, repetition and reversal',
  'the test for the importer is empty',
  ['rsbeams/rslattice/templates/lattice_importer.py', 'rsbeams/rslattice/Beamline.py'],
  [('parse_json', 'rsbeams/rslattice/templates/lattice_importer.py'), ('add_beamline', 'rsbeams/rslattice/Beamline.py')],
  observe=['get_beamline_elements() of the result'])

p('L03', 'elegant lattice files are parsed to the line they define',
  "For every elegant lattice file in the supported syntax (element and line definitions, repetition counts, nested lines, comments, continuation lines, stored RPN variables), parsing a named line gives a beamline whose flattened element list is the expansion of that line in order, each element with the type and parameter values of its definition. RPN expressions evaluate to the value of the postfix expression, with the second operand popped first for subtraction and division. A line that is not defined is refused.",
  ['inputs'], 'all files in the supported syntax and all RPN expressions over + - * / mult sqrt, numbers and pi',
  'there is no test of this module',
  ['rsbeams/rslattice/lte_parser.py'],
  [('parse_set_beamline / _expand_line', 'rsbeams/rslattice/lte_parser.py'), ('parse_rpn', 'rsbeams/rslattice/lte_parser.py')],
  observe=['get_beamline_elements() of the result; parse_rpn()'])

p('L04', 'Transfer matrices are symplectic and compose in beam order',
  "The transverse transfer matrix of every drift and quadrupole has unit determinant in each plane and is the exact solution of x'' = -K1 x, y'' = K1 y over length L. For every sequence of drifts and quadrupoles with numeric or named parameters, the concatenated matrix is the product of the element matrices with the last element leftmost, and the function returned for named parameters evaluates that matrix in the order of first use of the names.",
  ['inputs'], 'all element sequences, strengths and lengths, numeric or symbolic',
  'there is no test of this module',
  ['rsbeams/rslattice/Beamline.py'],
  [('matrices / generate_matrix', 'rsbeams/rslattice/Beamline.py')],
  observe=['generate_matrix()'])

p('L05', 'Magnet strengths are converted to Warp fields with the beam rigidity',
  "When a lattice is converted for Warp, every quadrupole gradient is sign * K1 * Brho and every sextupole strength sign * K2 * Brho, where Brho = p/e is the rigidity of the reference particle at the given total energy, and every bend gets the radius length/angle. The reference energy used is the total energy that belongs to the central momentum of the source file. Other parameters of the elements are not changed.",
  ['inputs'], 'all strengths, lengths, angles, energies above rest energy and lattices',
  'the module is not tested at all',
  ['rsbeams/pkcli/lattice.py', 'rsbeams/rsstats/kinematic.py'],
  [('_get_gradient / _parameter_conversions / elegant_to_warp', 'rsbeams/pkcli/lattice.py')],
  observe=['element parameters db and rc after conversion'])

p('L06', 'The Warp lattice file defines every element once and lists the line in order',
  "The Warp file written for a beamline contains exactly one definition for every distinct element name, with the Warp type of its elegant type and its parameter values (elements of unknown type become drifts of their own length, zero if none), before the line definition. The line definition lists every element of the flattened beamline in order, repetitions included.",
  ['inputs'], 'all beamlines, element types and repetitions',
  'the module is not tested at all',
  ['rsbeams/rslattice/formatted_writer.py'],
  [('WarpWriter.write_file', 'rsbeams/rslattice/formatted_writer.py')],
  observe=['text written'])

p('L07', 'Saved beamlines load back with the same structure',
  "For every beamline of elements and nested sub-lines, saving it to a file and loading the file into an empty beamline gives the same flattened element list with the same names, types and parameters, and the same nesting. Loading into a beamline that already has elements changes nothing.",
  ['inputs', 'histories'], 'all nestings, repetitions, element types and parameter values (numbers and strings)',
  'there is no test of this module',
  ['rsbeams/rslattice/Beamline.py'],
  [('save_beamline / load_beamline', 'rsbeams/rslattice/Beamline.py')],
  observe=['beamline after load'])

p('L08', 'Trace3D decks convert to SI beamlines completely',
  "Parsing a Trace3D deck gives one beamline element per element entry of the deck, the last one included, in order and with the entry's name and type. Lengths and displacements in millimetres, bend and pole face angles in degrees and cavity voltages in megavolts become metres, radians and volts, other parameters (gradients, field indices, phases, flags) are taken over unchanged, and every bend gets the arc length |radius * angle|. Folding the pole faces gives every bend its two face angles, half the gap and the fringe integral of the face before it and removes the faces; folding the gaps gives every cavity the length of the drifts around it, which become empty, and turns its own phase into 90 degrees minus it. Neither changes the length of the beamline or anything else.",
  ['inputs'], 'all decks of drifts, quadrupoles, bends, edges and cavities',
  'there is no test of this module',
  ['rsbeams/rslattice/trace3d_parser.py'],
  [('Trace3d.parse_set_beamline / _convert_units / _standardize', 'rsbeams/rslattice/trace3d_parser.py')],
  observe=['get_beamline_elements() of the result'])

p('P01', 'Histogram profiles conserve charge and use bin centres',
  "For every particle time list, charge and bin number, the current profile integrates (sum of current times bin width) to the total charge and is centred on the average time; histogram points are the bin centres and the counts of those bins, and counts add up to the number of particles.",
  ['inputs'], 'all data, charges and bin numbers',
  'there is no test of this module',
  ['rsbeams/rsplot/util.py'],
  [('get_current_from_t / get_histogram_points', 'rsbeams/rsplot/util.py')],
  observe=['returned arrays'])

p('P02', 'Lattice profile and symbol formatting render what the file says',
  "The magnet profile of an element table draws exactly one rectangle per magnet entry, from the end of the previous entry to its own end (scaled), in the colour of its magnet family, and nothing for other entries. SDDS symbol strings are formatted so that plain characters are copied, $g selects Greek letters, $a and $b open a superscript or subscript, $n closes it, and $r or $e return to plain text.",
  ['inputs'], 'all element tables and all symbol strings in that notation',
  'there is no test of this module',
  ['rsbeams/rsplot/util.py'],
  [('plot_profile / format_symbol', 'rsbeams/rsplot/util.py')],
  observe=['rectangles added to the axes; returned string'])

p('P03', 'Contour levels are symmetric, equally spaced and cover the field',
  "For every field, level count n >= 1 and positive multiplier, the contour levels are n values that start at the lower limit -M and go up in equal steps of 2M/n, where M is the larger of |multiplier*min| and |multiplier*max| of the field, rounded to three decimals.",
  ['inputs'], 'all fields with a maximum above zero or a minimum below zero, all level counts and multipliers',
  'there is no test of this module',
  ['rsbeams/rsplot/plot_ptcls.py'],
  [('gen_contour_levels', 'rsbeams/rsplot/plot_ptcls.py')],
  observe=['returned list'])

p('Q01', 'Phase advances and FFT tunes lie in their ranges and are exact for rotations',
  "For any two non-zero phase-space vectors the clockwise phase advance lies in [0, 2 pi) and rotating the first vector clockwise by it gives the direction of the second; the counter-clockwise one does the same for the opposite rotation. The FFT tune of the samples in the chosen interval is k/n or 1-k/n for the strongest Fourier bin k of n samples, and always lies in [0, 1/2].",
  ['inputs'], 'all vector pairs, both directions, all sample sequences and intervals',
  'there is no test of this module',
  ['rsbeams/rsptcls/phases.py'],
  [('phase_advance / tune_fft', 'rsbeams/rsptcls/phases.py')],
  observe=['return values'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for q in P:
        f.write(json.dumps(q) + '\n')
print(len(P), 'properties')

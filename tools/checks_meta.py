CH['P03'] = ('exhaustive enumeration of circuits and frequency grids on the real analysis, each point compared with a reference phasor model',
 'All 1-2 element (thorough 3) extensions of a backbone, all listed grids, coupling patterns up to three inductors, all connections of one or two non-linear devices; values fixed.')
CH['P09'] = ('exhaustive exploration of a bias lattice and of evaluation/temperature/control-voltage histories of the real devices against independent device models',
 'Every lattice point and every history up to the depth; between lattice points only the continuity sweeps.')
CH['P04'] = ('exhaustive enumeration of circuits, formulas, step modes and initial states on the real analysis, each reported row checked against the discretised equations of a reference model',
 'All 1-2 element extensions of a backbone (couplings included), both formulas, five kinds of initial state, listed time grids; non-linear devices in every connection within Newton tolerance.')
CH['P05'] = ('exhaustive fault injection: every sequence of step outcomes up to a window length at every position, executed on the real time loop with a scripted step solver, against a reference controller',
 'All sequences of 4 (thorough 6) outcomes from an alphabet of 4, at each of the attempts of the run; step outcomes are scripted, the loop is real.')
CH['P06'] = ('stateless exploration of the complete decision tree of solver outcomes on the real solution strategies with a scripted Newton solver',
 'The whole tree (each attempt converges or fails in one of four ways) for every combination of enabled strategies; mixtures of failure kinds in operating point analyses only in the thorough run.')
CH['P07'] = ('exhaustive enumeration of sweep grids, circuits and outcome sequences on the real analysis, against a reference grid and exact operating points',
 'All listed start/stop/step and point-count combinations, all 1-2 element extensions of a backbone, every outcome sequence (solved, unsolved, exception) up to 5 (thorough 6) points, one or two non-linear devices in every connection.')
CH['P01'] = ('explicit-state breadth-first exploration of editing histories on the real circuit object, states identified by its complete contents, against a dictionary model and a circuit built from scratch',
 'Twelve palettes of five elements, three start circuits, every operation in every state up to depth 4 (thorough 7).')
CH['P25'] = ('exhaustive enumeration of named states, element conditions and netlist forms on the real code, against a constraint model',
 'Every subset of named unknowns in six spellings; every set of up to three element conditions over four nodes; every combination of uic and element conditions of a fixed netlist.')
CH['P08'] = ('exhaustive enumeration of device connections, orders, solver paths and starting points on the real operating point search, each solution put into the circuit equations with independent device models',
 'One device in every connection of a backbone, pairs (thorough: triples), four bias points, dense and sparse paths, several starts; parameter values fixed.')
CH['P10'] = ('exhaustive enumeration of waveform parameters, times and netlist forms on the real functions against exact reference definitions',
 'All lattice parameter combinations at all break points, beside and between them, up to 64 periods; every positional/keyword/mixed netlist form of one parameter set per function.')
CH['P11'] = ('exhaustive enumeration of texts and of number forms in every numeric field of the real parser, against an exact recogniser',
 'All texts up to length 5 (thorough 7) over the number alphabet; all sign/mantissa/exponent/suffix/letter-case forms and a list of non-numbers in about 190 fields.')
CH['P12'] = ('exhaustive enumeration of layout transformations, line orders, included parts and element line forms on the real parser, against the meaning of the plain text and the programming calls',
 'Every single transformation at every place of three netlists, every pair on one (thorough two), all orders of six lines, every contiguous included part; element line forms of a fixed list.')
CH['P13'] = ('exhaustive enumeration of mutated, incomplete and repeated lines and of structural line sequences on the real parser and checker, against a reference grammar',
 'All one-edit (thorough: two-edit) mutations of 20 kinds of line, all 8192 subsets of a netlist of mutually referring lines, all repeated lines and names, all structural sequences up to length 4 (thorough 6).')
CH['P14'] = ('exhaustive enumeration of subcircuit bodies, port connections, nestings and name reuse on the real parser, compared by structure and operating point with the flat netlist written by a reference expander',
 'All node choices for 19 bodies (every element kind and groups with references), all connections of two (thorough three) instances, up to three (four) ports, three levels of nesting, three textual orders.')
CH['P15'] = ('exhaustive enumeration of elements with all option combinations and of element sequences: each printed by the real code, read back by the real parser and compared',
 'About 5,600 elements (every kind, every option combination over a lattice of values), all ordered sequences of two (thorough: four) kinds, subcircuit expansions, printing after analyses. AC phases other than 0 and 180 degrees and PWL functions have no netlist form.')
CH['P21'] = ('exhaustive enumeration of circuits, inputs, output ports, shifts and ways of asking on the real analysis, against exact rational characteristic and numerator polynomials',
 'All 1-2 element (thorough: 3) extensions of four backbones with every listed input and output port, couplings of up to three inductors; non-linear devices in every connection, linearised at a point.')
CH['P16'] = ('exhaustive enumeration of the spellings of every directive (positions, keyword orders, optional subsets, aliases, letter case), of wrong directives and of directive sequences through the real main(), compared with the analysis functions called directly',
 'Every positional prefix, keyword order and optional subset of 22 directive forms; about 500 wrong directives; all sequences of up to 3 (thorough 4) of 11 directives, with the order of the calls observed.')
CH['P24'] = ('exhaustive enumeration of driven circuits, grids, starting points and iteration limits on the real analyses, every returned point checked against the discretised equations and the periodicity',
 'All 1-2 element extensions of a backbone, all numbers of points up to 20 (thorough 40), steps that divide the period and that do not, one- and two-device non-linear circuits, limits of 1 to 30 iterations.')
CH['P17'] = ('explicit-state exploration of histories of analyses on the real code, the process forked at every branching point, every result compared with that of a fresh process',
 'Every pair of some 120 analyses (failing and refused ones and temperature excursions included) on seven circuits that share models, other pairs across circuits; thorough: triples.')
CH['P18'] = ('exhaustive enumeration of accessor call sequences on every kind of real result set, against the data put in',
 'Every ordered pair (thorough: triple) of some 17 accessors on 14 kinds of result set, four circuits, one to four points; all interleavings of two iterations over three steps.')
CH['P19'] = ('exhaustive enumeration of write/append histories and of partial reads of real data files, against a matrix model',
 'All small tables and write histories, all ordered selections of signals, first samples and sample counts.')
CH['P20'] = ('explicit-state exploration of histories of queue and run operations on the real code, the process forked at every branching point, against a model of queue and stored operating points',
 'Every history of three (thorough: four) operations out of 26 on two circuits; linear circuits.')
CH['P22'] = ('exhaustive enumeration of circuits, numeric and substituted elements, formulations and inputs on the real symbolic solver, solutions and transfer functions evaluated at points and compared with the numeric solution of an independent matrix model',
 'Every 1-element (thorough: 2-element) extension of a backbone over R I C G F V L H E with every control port, couplings of up to three inductors; two values of the Laplace variable per solution.')
CH['P23'] = ('exhaustive enumeration of harmonic contents, data lengths, intervals, windows, frequency limits and directive spellings on the real functions, against the known spectrum and independent windows',
 'All single harmonics and pairs up to the 9th, 14 lengths x 5 fundamentals, 18 ways of giving the interval, 121 pairs of frequency limits, all option subsets of the directives; the interpolation of coarse data is not judged.')
CH['P26'] = ('exhaustive enumeration of option settings, destinations, verbosity levels and input channels on the real command line entry point, its files and standard output compared with the script interface',
 'Every value of every option in three ways of writing on eight netlists, all pairs of option values on two (thorough: all netlists, and triples); 20 runs as separate programs for exit statuses.')
CH['P27'] = ('exhaustive enumeration of elements, parameters and terminal voltages in small networks; the real report file is parsed back and every figure compared with the one the exact solution implies',
 'All single linear elements and pairs around a backbone, diodes over parameters x area x temperature x bias, MOS transistors over model x type x geometry x a terminal voltage grid, mixed networks; figures compared at the six printed digits.')
CH['P28'] = ('exhaustive enumeration of elements and their connections making identifiable suggestions, the real starting point compared with the set of starting points that grant them; diode networks solved from every kind of start',
 'Every element type in every connection to four nodes, sequences of two and three (thorough: four) elements.')
CH['P29'] = ('exhaustive enumeration of label texts, signal pairs, directives, analyses and formats on the real plotting code with the drawing recorded, against the data of the analyses',
 'All labels in three spellings, pairs (thorough: triples), all texts up to six (thorough: eight) characters over the label alphabet; drawing itself (matplotlib) is replaced by a recorder.')
CH['P30'] = ('exhaustive fault injection: every figure of every reference file of small test benches is changed in every way and the verdict of the real test classes compared with the tolerance definition',
 'Both test classes, all analysis kinds alone and together, three working directories, every analysis lost or failing.')
CH['P31'] = ('exhaustive enumeration of circuit topologies classified by exact rank computations, the real analyses (dense and sparse solver) compared with the classification and their values with the exact equations',
 'All circuits of up to three elements R C I V L over ground and three nodes, of three elements with VCVS and VCCS, of four elements up to renaming (thorough: five); five further analyses on the insoluble ones.')
CH['P32'] = ('exhaustive enumeration of name assignments from adversarial pools to nodes, elements and models of four circuits, every analysis of the real code compared with that of the plainly named circuit',
 'All ordered pairs (thorough: quadruples) of eight or nine node names on all node pairs, all assignments of six endings to the elements of each kind, equal endings everywhere, nodes named like elements.')
CH['P33'] = ('exhaustive enumeration of option combinations on seven circuits and four analyses of the real code, every reported solution compared with the one found with tight tolerances',
 'All combinations of four ways of locking, damping, dense/sparse, two (thorough: four) cache sizes, guess, two sets of tolerances.')
CH['P34'] = ('exhaustive fault injection on the real code: every analysis interrupted at every program point, state, files and a repetition compared with the undisturbed run',
 'Every call of and return from a function of the program, told apart by caller and line, at its first and last (thorough: first twelve, middle, last) occurrence, in ten analyses of five circuits; the analysis repeated after every fourth (thorough: each) interruption.')

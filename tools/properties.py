"""Writes properties.jsonl (run from /verif)."""
import json
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe, state=None, hook=False):
    P.append({'id': pid, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files,
                          'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'observe_at': observe, 'hook_needed': hook,
                          **({'state': state} if state else {})}})


prop('P01', 'Editing history of a circuit does not matter',
     'After any sequence of creating nodes, adding elements and removing elements, the circuit contains exactly the surviving elements, each still connected to the nodes it was given by name, with one distinct node per name and no node left behind by what was removed. Simulating it gives the same results as a circuit built from scratch with the surviving elements. An operation that is refused leaves the circuit as it was.',
     ['histories'], 'all interleavings of node creation, element addition (two- and four-terminal, controlled, coupled, non-linear) and removal',
     'the bugs need a particular earlier removal; a test samples a handful of histories, almost all add-only',
     ['ahkab/circuit.py'],
     [('node dictionary in both directions with a running index', 'circuit.py create_node/add_node'),
      ('orphan-node search and renumbering on removal', 'circuit.py remove_elem')],
     ['Circuit.nodes_dict, elements and their terminals, get_nodes_number, operating point of the edited circuit'])
prop('P02', 'DC solution of a linear circuit satisfies its equations',
     'For every linear circuit of resistors, capacitors, inductors and independent or controlled sources whose equations have one solution, the operating point analysis reports exactly that solution: Kirchhoff laws at every node and the documented element law of every element, with the documented current directions. This holds whatever the order of the elements in the circuit, however elements share nodes, and the reported total power is the power dissipated.',
     ['inputs', 'configurations'], 'every circuit topology, element order, orientation and sharing of terminals',
     'each test is one fixed topology; errors show when terminals coincide or elements come in an unusual order',
     ['ahkab/dc_analysis.py', 'ahkab/results.py', 'ahkab/circuit.py', 'ahkab/components'],
     [('matrix stamping', 'dc_analysis.py generate_mna_and_N'), ('index of the branch current', 'circuit.py find_vde_index'),
      ('power computation', 'results.py op_solution')],
     ['op_solution values by variable name and its total power'])
prop('P03', 'AC solution is the phasor solution at every frequency',
     'For every linear circuit and every frequency requested, the small-signal analysis reports the complex solution of the circuit equations at that frequency, with the sources\' AC values and with capacitors, inductors and mutual couplings at their impedances. The frequencies reported are exactly the requested grid, both ends included, linear or logarithmic. For a non-linear circuit the result is that of the circuit linearised at the given operating point.',
     ['inputs', 'configurations'], 'every topology with reactive elements, every sweep specification, every linearisation point',
     'tests compare a few circuits with stored waveforms under wide tolerances',
     ['ahkab/ac.py', 'ahkab/transient.py', 'ahkab/dc_analysis.py', 'ahkab/utilities.py', 'ahkab/results.py'],
     [('AC source vector', 'ac.py generate_Nac'), ('reactive matrix', 'transient.py generate_D'), ('frequency iterators', 'utilities.py lin/log_axis_iterator')],
     ['ac_solution values by variable name'])
prop('P04', 'Transient points satisfy the integration formula',
     'In a transient analysis each reported point satisfies the circuit equations discretised with the selected implicit Euler or trapezoidal formula from the point before it, the first from the requested initial state at the start time, with every time-dependent source at that point\'s time. With a fixed step the time points are tstart plus whole multiples of the step, none skipped or repeated, up to the stop time.',
     ['inputs', 'configurations'], 'every small linear circuit with reactive elements, sources and mutual couplings, both formulas, every initial state',
     'stored-waveform tests have tolerances wider than the effect of a wrong source time or a wrong coefficient in one step',
     ['ahkab/transient.py', 'ahkab/implicit_euler.py', 'ahkab/trap.py', 'ahkab/dc_analysis.py'],
     [('time loop', 'transient.py transient_analysis'), ('formula coefficients', 'implicit_euler.py, trap.py get_df'), ('reactive matrix', 'transient.py generate_D')],
     ['tran_solution rows'])
prop('P05', 'Adaptive time stepping under rejections and failures',
     'Whatever sequence of solver failures, local-error rejections and accepted steps occurs in a transient analysis with step control, the reported times follow the start time, strictly increase and reach the stop time without going past it; a rejected trial point never appears in the output and no step used is larger than the permitted one. If the step must shrink below the minimum, or an iteration limit is reached, the analysis reports failure instead of an incomplete result.',
     ['fault_sequences', 'schedules'], 'all sequences of per-step outcomes (converge, fail, error above or below target) up to a depth',
     'on real circuits failures and rejections come in a few patterns only',
     ['ahkab/transient.py'],
     [('step halving, growth and acceptance', 'transient.py transient_analysis'), ('last-step clipping', 'transient.py check_step')],
     ['rows of tran_solution; returned value on failure'])
prop('P06', 'Only a converged, full-strength solution is reported',
     'The operating point search may start from a guess, add a conductance to ground or scale the sources to reach convergence, but whatever combination of those attempts fails or succeeds, a reported solution is one that converged with the complete, unscaled sources. When no attempt converges the analysis reports that there is no solution, and it does so only after every method that is switched on was tried; a method that is switched off is not used.',
     ['fault_sequences'], 'all sequences of convergence outcomes of the successive solution attempts, all combinations of the enabled strategies',
     'reaching a given attempt needs a circuit that defeats all earlier ones in that exact pattern',
     ['ahkab/dc_analysis.py'],
     [('strategy sequence', 'dc_analysis.py dc_solve'), ('gmin check of the result', 'dc_analysis.py op_analysis'), ('iteration', 'dc_analysis.py mdn_solver')],
     ['value returned by the solver and by the operating point analysis'])
prop('P07', 'DC sweep equals an operating point at each grid value',
     'A DC sweep reports one row per requested source value that can be solved, exactly the requested linear or logarithmic grid with both ends included (the stop value only if the step leads to it), and each row is the operating point of the circuit with the source set to that value. When the sweep ends, normally or not, the swept source has its original value again and the rest of the circuit is unchanged.',
     ['inputs', 'histories'], 'all grids (direction, sign, spacing, number of points), both source types, every circuit of a bounded grammar, failures at any point',
     'tests sweep a few sources over fixed grids and never look at the circuit after a failure',
     ['ahkab/dc_analysis.py', 'ahkab/utilities.py', 'ahkab/results.py', 'ahkab/ahkab.py'],
     [('sweep loop and restore', 'dc_analysis.py dc_analysis'), ('grid iterators', 'utilities.py lin_axis_iterator, log_axis_iterator')],
     ['dc_solution rows and the source value afterwards'])
prop('P08', 'Non-linear operating points satisfy Kirchhoff laws',
     'Every operating point reported for a circuit with diodes, MOS transistors (both models) or switches satisfies Kirchhoff current law at every node within the solver tolerances, with device currents given by the device equations. It does not depend on the element order, and for circuits with a single solution not on the starting guess.',
     ['inputs', 'configurations'], 'all small circuits over the device alphabet, orientations and terminal sharings, with and without guess',
     'tests compare a few circuits with stored values and loose tolerances',
     ['ahkab/dc_analysis.py', 'ahkab/diode.py', 'ahkab/mosq.py', 'ahkab/ekv.py', 'ahkab/switch.py', 'ahkab/dc_guess.py'],
     [('Jacobian and residual assembly', 'dc_analysis.py update_J_and_Tx / nonlinear stamping'), ('convergence test', 'dc_analysis.py convergence_check')],
     ['op_solution values'])
prop('P09', 'Device conductances are the slopes of the device currents',
     'For every non-linear device and bias point, the conductances used for linearisation are the partial derivatives of the device current with respect to its port voltages, and the currents have the symmetries of the device: a p-channel device mirrors the n-channel one, swapping drain and source reverses the current, parallel multiplicity scales it, and the current is continuous and, within the smoothing error of the model, does not decrease with forward bias.',
     ['inputs'], 'all bias points of a dense grid over every operating region, all device geometries and model parameters of a grid',
     'a wrong derivative still converges on the tested circuits, only slower or to a slightly wrong AC result',
     ['ahkab/diode.py', 'ahkab/mosq.py', 'ahkab/ekv.py', 'ahkab/switch.py'],
     [('diode current and conductance', 'diode.py get_i/get_gm'), ('square-law MOS', 'mosq.py get_ids/get_gm/get_gds/get_gmb'), ('EKV', 'ekv.py'), ('switch', 'switch.py')],
     ['device i(), g()'])
prop('P10', 'Source waveforms follow their definition at every time',
     'Each time-dependent source function (pulse, exponential, sine, piecewise linear, single-frequency FM and amplitude modulation) returns, at every time, the value of its documented definition, including before its delay, exactly at its break points and after any number of periods. The same waveform results whether it is described in a netlist, positionally or by keyword with optional parameters left out, or through the programming interface.',
     ['inputs', 'configurations'], 'all times of a grid containing every break point and its neighbours, all parameter combinations, all ways of writing them',
     'a test looks at one parameter set; errors sit at break points and at omitted optional parameters',
     ['ahkab/time_functions.py', 'ahkab/netlist_parser.py', 'ahkab/components/sources'],
     [('waveform functions', 'time_functions.py'), ('parsing of waveforms', 'netlist_parser.py parse_time_function')],
     ['value of the function object; source value in a transient'])
prop('P11', 'Numbers in netlists mean what their suffix says',
     'Every number written in a netlist in any accepted form (sign, decimals, exponent, any supported scale suffix in any letter case) denotes its mathematical value, and any text that is not such a number is rejected with an error rather than read as some other value.',
     ['inputs'], 'all strings up to a length over the alphabet of digits, signs, point, exponent and suffix letters',
     'the space of spellings is far larger than the few literals in the tests',
     ['ahkab/netlist_parser.py'], [('number conversion', 'netlist_parser.py convert_units')],
     ['value returned or error raised'])
prop('P12', 'The layout of a netlist does not change its meaning',
     'A netlist means the same circuit and the same analyses whatever the letter case, the amount of blank space, the blank and comment lines, the position where lines are continued, the order of element lines relative to model and directive lines, and whether parts come through an included file; anything after the end directive is ignored. Each element line yields exactly the element that the corresponding programming call creates.',
     ['programs'], 'all layouts reachable from a base netlist by up to a number of meaning-preserving edits, all element lines of a grammar',
     'tests use one fixed layout per netlist',
     ['ahkab/netlist_parser.py'],
     [('line joining', 'netlist_parser.py join_lines'), ('file stack', 'netlist_parser.py parse_circuit/main_netlist_parser'), ('element parsing', 'netlist_parser.py parse_elem_*')],
     ['parsed circuit, directives and operating point'])
prop('P13', 'Malformed netlists are refused, never half-read',
     'A netlist with a line that lacks a required field, has a surplus one, an unknown keyword, an unknown or missing model, sensing source or subcircuit, a repeated element name, no ground connection, or unbalanced subcircuit lines is refused with the parser\'s or circuit checker\'s error. It is never accepted as a different circuit and never ends in an internal crash.',
     ['programs'], 'all single mutations (token dropped, duplicated, corrupted, line dropped or duplicated) of every line of a grammar',
     'error paths are hardly tested; each mutation is a separate path',
     ['ahkab/netlist_parser.py', 'ahkab/utilities.py', 'ahkab/circuit.py'],
     [('per-element checks', 'netlist_parser.py parse_elem_*'), ('circuit check', 'utilities.py check_circuit')],
     ['exception type or circuit check verdict'])
prop('P14', 'A subcircuit call equals its contents written in place',
     'Instantiating a subcircuit is equivalent to writing its elements in place with the ports connected as listed, internal nodes and element names private to the instance and ground shared. This holds for any number of instances, any port order, nested calls, and elements inside that refer to each other by name.',
     ['programs'], 'all small subcircuit definitions and call patterns up to two instances and two levels',
     'tests have a couple of subcircuits without internal references',
     ['ahkab/netlist_parser.py', 'ahkab/circuit.py'],
     [('expansion', 'netlist_parser.py parse_elem_subckt... instanciate subckt'), ('wrapped circuit', 'circuit.py circuit_wrapper')],
     ['operating point and node list of the expanded circuit'])
prop('P15', 'Printing a circuit and parsing it back gives the same circuit',
     'The netlist text that a circuit prints for itself, read back next to the same model definitions, describes an equivalent circuit: the same elements, values to the printed precision, connections, initial conditions, sources and time functions, whichever options an element has, and also after analyses have been run on the circuit.',
     ['inputs'], 'every element kind with every combination of its options',
     'no test reads a printed netlist back',
     ['ahkab/circuit.py', 'ahkab/components', 'ahkab/time_functions.py', 'ahkab/diode.py', 'ahkab/mosq.py', 'ahkab/ekv.py', 'ahkab/switch.py', 'ahkab/netlist_parser.py'],
     [('netlist line of an element', 'components get_netlist_elem_line'), ('netlist of a circuit', 'circuit.py __str__')],
     ['element lists of the two circuits'])
prop('P16', 'Analysis directives produce the analysis that was asked for',
     'Each analysis directive written in a netlist, with its parameters given by position or by keyword, in any order, with optional ones left out, produces the analysis with exactly those parameters and the documented defaults for the rest; every analysis of the file is run, in the order of appearance. Directives with missing required, unknown or ill-typed parameters are refused.',
     ['programs', 'inputs'], 'all parameter subsets and orders of every directive',
     'tests use one spelling per directive',
     ['ahkab/netlist_parser.py', 'ahkab/ahkab.py', 'ahkab/dc_analysis.py', 'ahkab/ac.py', 'ahkab/transient.py', 'ahkab/pz.py', 'ahkab/symbolic.py', 'ahkab/pss.py'],
     [('directive parsing', 'netlist_parser.py parse_analysis, parse_single_analysis, parse_ics'), ('run loop', 'ahkab.py main')],
     ['analysis dictionaries; results of main'])
prop('P17', 'Analyses do not disturb each other',
     'Running any sequence of analyses, on one circuit or several in the same process, gives for each analysis the result it gives alone in a fresh process, as long as the circuit and the options are the same; analyses leave circuit, models, options and their own descriptions unchanged. Changing the temperature and changing it back restores the results.',
     ['histories'], 'all sequences of analyses (including failing ones) up to a depth on circuits sharing device models',
     'every test runs in its own process with one fixed sequence',
     ['ahkab/ahkab.py', 'ahkab/dc_analysis.py', 'ahkab/transient.py', 'ahkab/ac.py', 'ahkab/utilities.py', 'ahkab/diode.py', 'ahkab/switch.py', 'ahkab/mosq.py', 'ahkab/ekv.py'],
     [('memoised device functions', 'utilities.py memoize'), ('stored operating points', 'ahkab.py _x0s'), ('module globals', 'options.py, constants.py')],
     ['results of each analysis; circuit and option values'])
prop('P18', 'Result sets return exactly the computed data by every access path',
     'For each kind of analysis, the values, keys, items, length, iteration, lookup, membership and array access of a result set agree with each other and with the data computed, ignoring the letter case of names; unknown names raise a key error or give the default. Complex values survive storage, and the data can be read any number of times in any order without changing.',
     ['histories', 'inputs'], 'all sequences of accessor calls on every kind of result set',
     'tests mostly use one accessor on one result kind',
     ['ahkab/results.py', 'ahkab/csvlib.py'],
     [('result classes', 'results.py'), ('file storage', 'csvlib.py')],
     ['values returned by the accessors'])
prop('P19', 'Data files round-trip, in whole or in part',
     'Data written to a file, in one piece or by appending, is read back bit for bit with its headers; loading a subset of signals in any order gives those columns in that order, and loading with a first sample and a number of samples gives exactly those samples and says truthfully where reading stopped and whether the end was reached.',
     ['histories', 'inputs'], 'all write/append histories and all combinations of selected signals, first sample and sample count for small tables',
     'tests load whole files only',
     ['ahkab/csvlib.py'], [('write and load', 'csvlib.py write_csv, load_csv')], ['arrays, headers and flags returned'])
prop('P20', 'Running and queueing analyses',
     'Running a list of analyses, passed directly or queued earlier, performs each exactly once in the given order on the given circuit and returns the result of each under its kind; the descriptions passed in are not modified and can be reused, and the queue is empty afterwards; a queued analysis is performed as it was described when it was queued. An analysis that asks for the operating point as its starting point gets the latest one computed for that circuit, or none if there is none.',
     ['histories'], 'all sequences of queue and run operations up to a depth, with all analysis kinds and dependencies',
     'tests run one list once',
     ['ahkab/ahkab.py'], [('queue and run', 'ahkab.py queue, run'), ('stored operating point', 'ahkab.py _x0s, _handle_netlist_ics')],
     ['returned dictionaries, order of executed analyses, the passed dictionaries afterwards'])
prop('P21', 'Poles and zeros are those of the transfer function',
     'For every linear circuit the pole-zero analysis reports, in Hz and each with its multiplicity, exactly the finite natural frequencies of the circuit (roots of the determinant of its equations) and, when input and output are given, the finite roots of the numerator over that determinant (a natural frequency that cancels appears in both lists; no zeros if the transfer function is zero), whatever the shift used internally. A non-linear circuit is taken as linearised at the given point. Results can be accessed by name.',
     ['inputs', 'configurations'], 'all RLC and controlled-source topologies of a bounded grammar, every input source and output port',
     'a few circuits are tested; wrong signs and spurious or missing singularities depend on topology',
     ['ahkab/pz.py', 'ahkab/results.py'], [('time constant matrix', 'pz.py calculate_poles, calculate_singularities')], ['pz_solution.poles, zeros and items'])
prop('P22', 'Symbolic solutions agree with numeric ones',
     'For every linear circuit, substituting element values and a frequency in the symbolic solution gives the numeric solution of the circuit equations for each variable, with or without frequency-dependent elements, with elements declared numeric, and with substitutions applied. Each transfer function has the gain, DC gain, poles and zeros of that solution.',
     ['inputs', 'configurations'], 'all small circuits of a bounded grammar and all subsets of numeric elements and substitutions',
     'tests compare a few circuits with stored expressions',
     ['ahkab/symbolic.py', 'ahkab/results.py'], [('symbolic stamping', 'symbolic.py generate_mna_and_N'), ('transfer functions', 'symbolic.py calculate_gains')], ['symbolic_solution expressions'])
prop('P23', 'Fourier post-processing recovers known spectra',
     'For a waveform made of a constant and harmonics of a fundamental, the Fourier analysis returns the frequencies of those harmonics, amplitudes in the right proportion and the right total harmonic distortion, for any admissible length, sampling, window and frequency limits; the frequency limits remove exactly the bins outside them.',
     ['inputs', 'configurations'], 'all combinations of harmonic content, number of periods, options',
     'the existing tests of this module do not pass in this environment',
     ['ahkab/fourier.py'], [('FOUR and FFT', 'fourier.py fourier, spicefft')], ['returned frequencies, spectrum, distortion'])
prop('P24', 'Periodic steady state solutions are periodic solutions',
     'Both periodic steady state methods return one period sampled on the requested grid which satisfies the discretised (implicit Euler) circuit equations at every point, the first point being the last one a period earlier; for a linear circuit they agree with each other and with the state a long transient settles to. When the method does not converge it reports no solution.',
     ['inputs', 'configurations'], 'all small driven RLC (and diode) circuits, all numbers of points, both methods',
     'only two waveforms are compared with stored data',
     ['ahkab/shooting.py', 'ahkab/bfpss.py', 'ahkab/utilities.py', 'ahkab/pss.py'], [('shooting', 'shooting.py'), ('brute force', 'bfpss.py'), ('grid', 'utilities.py check_step_and_points')], ['pss_solution rows'])
prop('P25', 'Initial conditions are applied to the variables they name',
     'A state given by naming node voltages and branch currents sets exactly those variables and zero for the others, unknown names being refused; a state modified by element initial conditions changes exactly the voltage of the capacitors and the current of the inductors that have one, including the value zero and whichever terminal is grounded. A transient started from such a state takes its first step from there.',
     ['inputs', 'histories'], 'all subsets of named variables, all element orientations and initial values',
     'tests do not combine initial conditions with grounded or swapped terminals',
     ['ahkab/dc_analysis.py', 'ahkab/ahkab.py', 'ahkab/transient.py'],
     [('state from names', 'dc_analysis.py build_x0_from_user_supplied_ic'), ('state from element conditions', 'dc_analysis.py modify_x0_for_ic')],
     ['state vector; first transient point'])
prop('P26', 'Command line and script interface give the same results',
     'Running a netlist from the command line, from standard input, or from a script yields the same data, each option given on the command line has the effect of the corresponding setting, and results written to files contain the data that the script interface returns.',
     ['configurations'], 'all combinations of the command line options over small netlists',
     'no test uses the command line', ['ahkab/__main__.py', 'ahkab/ahkab.py', 'ahkab/printing.py'],
     [('option handling', '__main__.py _cli'), ('main loop', 'ahkab.py main')], ['output files, standard output, exit status'])
prop('P27', 'The operating point report agrees with the solution',
     'Every figure of the operating point report (voltages across and currents through each element, its power, the small-signal parameters, terminal voltages and operating region of diodes, switches and MOS transistors, and the total power) is the one that the solution of the circuit implies, for every element type, polarity, orientation and operating region; an element never reports the figures of another.',
     ['inputs'], 'all elements, parameters and terminal voltages', 'the tests read the solution, never the report',
     ['ahkab/results.py', 'ahkab/components', 'ahkab/mosq.py', 'ahkab/ekv.py', 'ahkab/diode.py', 'ahkab/switch.py'],
     [('element figures', 'components get_op_info'), ('report', 'results.py op_solution.write_to_file')], ['operating point report file'])
prop('P28', 'The starting point is the one the elements ask for',
     'When the voltages that the elements suggest for the start of an operating point search can be granted together, the search starts from a point that grants all of them, each to the ports of the element that made it; ports that are shorted or that nothing determines do not shift the suggestions of others; whatever the starting point, the operating point found is the same wherever it is unique.',
     ['inputs'], 'all sets of elements, connections and suggestions', 'no test looks at the starting point',
     ['ahkab/dc_guess.py', 'ahkab/dc_analysis.py'],
     [('suggestions', 'dc_guess.py get_dc_guess'), ('use', 'dc_analysis.py op_analysis')], ['starting vector; operating point'])
prop('P29', 'Plot directives draw exactly the requested signals',
     'A plot directive, or a plot asked for by the script interface, draws one curve per requested signal, carrying the data of that signal (or of the difference of the two nodes named, or the current of the element named) over the abscissa of the analysis it names, in the file named after it; labels that name no signal, or a missing analysis, are reported and draw nothing else in their place.',
     ['inputs', 'configurations'], 'all label spellings, pairs of signals, analyses and file formats',
     'no test looks at the curves', ['ahkab/plotting.py', 'ahkab/netlist_parser.py', 'ahkab/ahkab.py'],
     [('labels', 'plotting.py _split_netlist_label'), ('curves', 'plotting.py plot_results')], ['curves, legends and files drawn'])
prop('P30', 'The test framework passes exactly the results that agree with the reference',
     'The test classes that the program offers for checking a circuit against stored reference data pass if every figure agrees with the reference within the tolerances asked for, and fail if any one figure of any analysis deviates beyond them, is not a number, or if an analysis is missing or gives no result; they do so from any working directory and leave no files behind.',
     ['inputs', 'configurations'], 'all figures, analyses, deviations and directories',
     'the tests use the framework, they do not test it', ['ahkab/testing.py'],
     [('netlist tests', 'testing.py NetlistTest'), ('script tests', 'testing.py APITest')], ['verdict; files'])
prop('P31', 'Circuits without a solution are told apart from the others',
     'A circuit whose equations have exactly one solution gets that solution and no complaint; when they have none, or have one only with the help of Gmin, the operating point is refused or given with a message and never silently; with neither, no analysis (operating point, sweep, AC, transient, periodic, symbolic) reports a result. The same holds for circuits large enough for the sparse solver and for circuits without a reference node.',
     ['inputs'], 'all circuit topologies', 'tests use solvable circuits only',
     ['ahkab/dc_analysis.py', 'ahkab/ac.py', 'ahkab/symbolic.py', 'ahkab/utilities.py', 'ahkab/transient.py'],
     [('solution', 'dc_analysis.py mdn_solver/dc_solve'), ('with and without Gmin', 'dc_analysis.py op_analysis'), ('ground paths', 'utilities.py check_ground_paths')], ['result or its absence; messages'])

prop('P32', 'Names carry no meaning',
     'The names given to nodes, elements and device models identify them and do nothing else: under any two sets of names that differ in more than letter case, every analysis (operating point, DC sweep, AC, transient, poles and zeros, symbolic) gives the same results with the names exchanged. In particular an element, node or model is never taken for another one whose name begins like its own, contains it, looks like a number, like ground, or like the name of a voltage, a current or an internal variable.',
     ['inputs'], 'all assignments of names', 'tests use a handful of tidy names',
     ['ahkab/circuit.py', 'ahkab/results.py', 'ahkab/symbolic.py', 'ahkab/dc_analysis.py', 'ahkab/transient.py', 'ahkab/ac.py', 'ahkab/pz.py'],
     [('nodes and elements', 'circuit.py create_node, get_elem_by_name, find_vde_index'), ('variables', 'results.py'), ('symbols', 'symbolic.py')], ['results of all analyses'])
prop('P33', 'Solver options change how a solution is found, never the solution',
     'The options that steer the solution (damping of the first iterations, locking of controlling voltages and its width, dense or sparse algebra, size of the device caches, starting guess, tolerances) may cost time or make the program report that it found no solution; every solution reported with any combination of them is the solution of the circuit, within the tolerances in force, for operating points, sweeps, AC and transient analyses. With the standard options the solution is found.',
     ['configurations', 'inputs'], 'all combinations of the options', 'the tests use the standard options',
     ['ahkab/dc_analysis.py', 'ahkab/options.py', 'ahkab/utilities.py', 'ahkab/transient.py', 'ahkab/ac.py'],
     [('Newton iteration', 'dc_analysis.py mdn_solver, get_td'), ('convergence', 'dc_analysis.py convergence_check'), ('caches', 'utilities.py memoize')], ['results of the analyses'])

prop('P34', 'An interrupted analysis leaves everything usable',
     'Wherever an analysis is interrupted (by Ctrl-C, by a lack of memory; not while it is already cleaning up), the interruption reaches the caller or the analysis completes correctly; the settings, the circuit with all its elements, sources and initial values, and the stored operating points are as they were before; the data file holds nothing or the first part of the complete one, no other files are left behind; and the same analysis repeated gives the results that it gives undisturbed.',
     ['crash_points', 'fault_sequences'], 'all program points of all analyses', 'no test interrupts an analysis',
     ['ahkab/dc_analysis.py', 'ahkab/ac.py', 'ahkab/transient.py', 'ahkab/shooting.py', 'ahkab/bfpss.py', 'ahkab/pz.py', 'ahkab/ahkab.py', 'ahkab/results.py', 'ahkab/csvlib.py'],
     [('swept source', 'dc_analysis.py dc_analysis'), ('temporary files', 'shooting.py'), ('runs', 'ahkab.py run'), ('data files', 'csvlib.py')], ['settings, circuits, files and repeated results after the interruption'])

with open('properties.jsonl', 'w') as fp:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        fp.write(json.dumps(p) + '\n')
print(len(P), 'properties')

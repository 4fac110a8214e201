#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the text is reviewable)."""
import json, os
P = []
def add(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files,
                          'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                          'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
                          'observe_at': list(observe), 'hook_needed': None}})
C = 'pyphs/core/'; N = 'pyphs/numerics/'; G = 'pyphs/graphs/'; D = 'pyphs/dictionary/'

add('C01', 'Simulations obey the discrete power balance and passivity',
    'On every step of a simulation run with the discrete-gradient method, the recorded variation of the stored energy, the dissipated power and the power at the ports sum to zero up to the solver tolerance, for linear and nonlinear systems alike and whatever the input signals. A system whose dissipation laws are passive never records a negative dissipated power, and with its sources at zero its stored energy never increases.',
    ['inputs', 'programs', 'configurations', 'histories'],
    'every admissible port-Hamiltonian system (linear, nonlinear, coupled, state-dependent or parameter-dependent interconnection, resistive structure), input history, initial state, step size, splitting option and simulation length',
    'the tests run a few fixed circuits and only check that the run does not raise; no test looks at the balance of any recorded trajectory',
    [N+'numerical_method/_method.py', N+'numerical_method/_discrete_calculus.py', N+'numerical_core/_numerical_core.py', N+'simulations/simulation.py', N+'simulations/h5data/h5data.py', C+'structure/splits.py'],
    [('discrete gradient', N+'numerical_method/_discrete_calculus.py:discrete_gradient'), ('implicit solver', N+'numerical_method/_method.py'), ('recorded powers dtE, pd, ps', N+'simulations/h5data/h5data.py')],
    ['recorded simulation data: x, dx, w, u, p, o, dxH, z, y, energy and power signals'])

add('C02', 'Every simulated step solves the selected numerical scheme',
    'For each option of the numerical method (discrete gradient, theta scheme, trapezoidal rule, any theta, splitting on or off), every recorded step satisfies the implicit equations of that scheme, evaluated independently from the user\'s model, up to the solver tolerance. Successive states chain (next state = state + increment), the first state is the requested initial one, inputs and parameters are the requested ones, and the options which only change how the equations are solved do not change the trajectory.',
    ['inputs', 'programs', 'configurations', 'histories'],
    'every system, gradient option, theta in [0,1], splitting option, sample rate, input and parameter sequence and initial state',
    'tests compare at most one or two trajectories of a fixed system between options; no test recomputes the scheme',
    [N+'numerical_method/_method.py', N+'numerical_method/_discrete_calculus.py', N+'numerical_core/_numerical_core.py', N+'simulations/simulation.py', C+'core.py'],
    [('scheme construction', N+'numerical_method/_method.py'), ('update of the state', N+'numerical_core/_numerical_core.py'), ('simulation loop', N+'simulations/simulation.py')],
    ['recorded simulation data', 'Numeric update/get/set API'])

add('C03', 'The discrete gradient is exact and consistent',
    'For every storage function, the discrete gradient contracted with the state increment equals the increment of the storage function, for all states and increments, and it tends to the usual gradient when the increment tends to zero, staying finite at vanishing increments. Theta and trapezoidal evaluations equal the gradient at the shifted point and the mean of the gradients at both ends.',
    ['inputs'],
    'every storage function (separable, quadratic, coupled, transcendental) of any number of variables, every state and increment including zero and tiny increments',
    'one fixed function in one test; no increments near the numerical threshold',
    [N+'numerical_method/_discrete_calculus.py', C+'maths/_calculus.py'],
    [('discrete gradient', N+'numerical_method/_discrete_calculus.py'), ('symbolic calculus', C+'maths/_calculus.py')])

add('C04', 'Structure matrices stay consistent under every accessor',
    'At any moment the structure matrix equals its conservative part minus its resistive part, the conservative part is skew-symmetric and the resistive part symmetric, and every named block equals the corresponding rows and columns of the whole. Writing a block stores exactly the given value there and, for the conservative or resistive parts, its mirrored image, and leaves every unrelated entry and the other part unchanged.',
    ['histories', 'inputs'],
    'every sequence of block writes through the public interface after the variables are declared, on systems of any dimension',
    'tests write blocks once on one fixed system; nothing checks unrelated blocks',
    [C+'core.py', C+'structure/dimensions.py', C+'structure/indices.py'],
    [('accessor generators', C+'core.py:_struc_getset/_build_*'), ('dimension and index bookkeeping', C+'structure/dimensions.py')])

add('C05', 'Reordering and splitting a system changes only the order',
    'Moving storages, dissipations, ports or connectors, splitting into linear and nonlinear parts and splitting into mono- and multivariate parts only permute the system: every variable keeps its law and every pair of variables its interconnection coefficient, the storage function is unchanged and nothing is lost or duplicated. The matrices reported for the linear parts reproduce the gradient of the storage function and the dissipation laws on those parts, whose dimensions match the linear/nonlinear nature of the laws.',
    ['inputs', 'programs', 'histories'],
    'every system and every sequence of moves and splits',
    'tests call the splits on a few systems and check only dimensions or that nothing raises',
    [C+'structure/moves.py', C+'structure/splits.py', C+'core.py', C+'structure/dimensions.py'],
    [('moves', C+'structure/moves.py'), ('splits', C+'structure/splits.py')])

add('C06', 'Eliminating dissipative variables preserves the behaviour',
    'Reducing the linear dissipative variables of a system into a resistive structure leaves its input/output and state behaviour unchanged: for every state, input and parameter value the state derivative and outputs computed from the reduced system equal those of the original one, as does the total dissipated power. Variables the user asked to keep are kept with their laws.',
    ['inputs', 'programs'],
    'every system whose algebraic loop is solvable, every set of protected variables, every evaluation point',
    'one test reduces one system and compares it with nothing',
    [C+'structure/R.py', C+'structure/splits.py', C+'core.py'],
    [('elimination of z', C+'structure/R.py:reduce_z')])

add('C07', 'Connecting ports imposes exactly the declared connection',
    'After connectors are declared between pairs of ports and the system is connected, the connected variables are eliminated and the resulting system is the one obtained by imposing, for each pair of connectors, the declared relation u0 = -alpha*y1, u1 = alpha*y0 (gyrator or transformer according to the variables, ratio included) on the original equations. Connections are power-conserving, other ports and all laws are untouched, and the outcome does not depend on the order in which connections are declared.',
    ['inputs', 'programs', 'histories'],
    'every system with two or more connector pairs or ports turned into connectors, every ratio (numeric or symbolic), every declaration order',
    'only one or two fixed connected systems in the examples; results never compared with the equations',
    [C+'core.py', C+'structure/connectors.py', C+'structure/moves.py'],
    [('connect', C+'core.py:connect'), ('port to connector', C+'structure/connectors.py')])

add('C08', 'Adding systems yields their disjoint union',
    'The sum of two systems contains exactly the variables, laws, ports, parameters, connectors, observers and substitutions of both, each keeping its own interconnection coefficients, with no coupling between the two parts and a storage function equal to the sum. The operands are left unchanged, summation is associative, and the sum with an empty system is the system itself.',
    ['inputs', 'programs', 'histories'],
    'every pair (and chain) of systems, already split or not',
    'tests add a fixed pair once and check that it does not raise',
    [C+'core.py', C+'structure/moves.py'],
    [('sum', C+'core.py:__add__')])

add('C09', 'Copies and saved systems are equal and independent',
    'Copying a system, or saving it to disk and loading it in a new object, yields a system with equal variables, laws, structure, parameters, substitutions, connectors, observers and linear/nonlinear split. Subsequent changes made to either one through the public interface never show in the other.',
    ['inputs', 'histories'],
    'every system at every stage of its preparation and every sequence of later modifications of either side',
    'tests save and load one system and check one attribute',
    [C+'core.py'],
    [('copy', C+'core.py:__copy__'), ('save/load', C+'core.py:save,load')])

add('C10', 'Substituting, simplifying and inverting keep every value',
    'Replacing symbols by their substitution values, simplifying the expressions of a system, or inverting its substitution dictionary changes the form but not the value of any expression: at every numerical point, the storage function, laws, structure and outputs evaluate to the same numbers as before. Only the requested symbols are replaced, and a symbolic value is resolved through its own substitutions; inverses of the given symbols are replaced by symbols that stand for them, and the reported free symbols are exactly those of the expressions.',
    ['inputs', 'programs'],
    'every system, every substitution dictionary (numeric, symbolic, chained), every selection and evaluation point',
    'tests run these functions on one system and check almost no value',
    [C+'tools/_substitutions.py', C+'tools/_simplify.py', C+'tools/_subsinverse.py', C+'tools/_free_symbols.py', C+'core.py'],
    [('substitute', C+'tools/_substitutions.py'), ('simplify', C+'tools/_simplify.py'), ('subsinverse', C+'tools/_subsinverse.py')])

add('C11', 'Systems built from netlists obey the laws of the circuit',
    'Whenever a system is produced from the graph of a network of components, it has exactly the solutions of the network: for every state and source value, the efforts and flows it implies satisfy the node and loop laws of the graph together with the constitutive law of each component, and the outputs are the conjugate quantities at the ports. The structure is conservative apart from declared dissipation, and unrealizable networks are refused rather than given a wrong system.',
    ['inputs', 'programs'],
    'every network topology of storages, dissipations, sources, transformers and gyrators, every node naming and line order',
    'tests build a dozen fixed netlists and check that construction does not raise',
    [G+'graph.py', G+'analysis.py', G+'build.py', G+'realizability/realizability.py', G+'subgraph.py', D+'edges/dissipatives.py', D+'edges/storages.py', D+'connectors/__init__.py'],
    [('causality analysis', G+'analysis.py'), ('structure from the incidence matrix', G+'build.py'), ('to_core', G+'graph.py')])

add('C12', 'Graph transformations and line order keep the network behaviour',
    'Splitting a graph into series and parallel parts, permuting the lines of its netlist, renaming nodes or combining graphs before or after analysis does not change the behaviour of the resulting system: input/output power, stored energy and the relation between state, sources and outputs are the same.',
    ['inputs', 'programs', 'histories'],
    'every network, every permutation of its lines, every node renaming, every sequence of splitting and assembling',
    'tests apply the splits to two fixed graphs and check only that they run',
    [G+'graph.py', G+'subgraph.py', G+'tools.py', G+'analysis.py'],
    [('series/parallel split', G+'graph.py:split_sp'), ('subgraphs', G+'subgraph.py')])

add('C13', 'Netlists survive writing, reading and editing',
    'A netlist written to a file and read back has the same lines: dictionary, component, label, nodes and arguments, with the same values and types. Adding, setting, deleting and concatenating lines affect exactly the targeted lines, and the graph and system built from the re-read netlist equal those built from the original.',
    ['inputs', 'histories'],
    'every netlist content (node names, numeric and string arguments, labelled values, lists), every sequence of edits',
    'one fixed netlist written and compared as a string',
    [G+'netlists.py', G+'graph.py'],
    [('text format', G+'netlists.py')])

add('C14', 'Dictionary components implement their documented laws',
    'Every component of the component dictionary, for every admissible parameter value, stores energy bounded below, dissipates non-negative power, and follows its documented constitutive law between its pins, in the documented orientation. Parameters given as numbers, labelled values or free symbols lead to the same law, piecewise-linear components pass through their data points and interpolate linearly between them.',
    ['inputs', 'configurations'],
    'every component, admissible parameter set, pin naming and evaluation point',
    'tests instantiate each component once with default values and check no law',
    [D+'tools.py', D+'edges/dissipatives.py', D+'edges/storages.py', D+'electronics/__init__.py', D+'mechanics/__init__.py', D+'mechanics_dual/__init__.py', D+'magnetics/__init__.py', D+'thermics/__init__.py', D+'transducers/__init__.py', D+'connectors/__init__.py', D+'pwl/tools.py'],
    [('component graphs', D+'edges'), ('piecewise-linear fit', D+'pwl/tools.py')])

add('C15', 'Recorded data are stored and returned faithfully',
    'Whatever is recorded during a run is returned unchanged: any component, time slice, decimation or time window of a signal equals the corresponding part of the full record, lengths and time stamps agree, and nothing is lost or repeated across internal chunk boundaries. Derived signals (energy, powers, gradient, dissipation laws, outputs, observers) equal their definition applied to the recorded variables.',
    ['inputs', 'histories', 'configurations'],
    'every signal, slice, chunk size, simulation length (shorter and longer than the internal buffers), and input given as an array, list or generator',
    'tests record fewer samples than one chunk and read whole signals only',
    [N+'simulations/h5data/h5data.py', N+'simulations/h5data/tools.py', N+'simulations/simulation.py'],
    [('HDF5 store', N+'simulations/h5data/h5data.py'), ('chunked writer', N+'simulations/h5data/tools.py')])

add('C16', 'Numerical evaluation equals the symbolic expressions',
    'Every compiled numerical function of a system returns, at every point, the value of the corresponding symbolic expression with the substitutions applied, with arguments taken in the documented order and matrix shapes respected. Vectorised evaluation over sequences equals point-wise evaluation, and functions built for one system never return values of another.',
    ['inputs', 'programs', 'configurations'],
    'every system, expression, substitution dictionary, argument point, scalar or sequence arguments',
    'tests evaluate one system at one point',
    [N+'tools/_evaluation.py', N+'tools/_lambdify.py', N+'tools/_operation.py', N+'numerical_core/_numerical_core.py'],
    [('lambdify', N+'tools/_lambdify.py'), ('Evaluation', N+'tools/_evaluation.py'), ('operations', N+'tools/_operation.py')])

add('C17', 'Simulations are reproducible and isolated from each other',
    'Running the same simulation twice, in the same or in a fresh object or process, interleaved or not with other simulations, yields identical records; re-initialising an object with new initial values, inputs, parameters or options gives the same result as a fresh object configured that way. Building a numerical method or simulation never modifies the user\'s system or arguments.',
    ['histories', 'schedules', 'configurations'],
    'every sequence of creating, initialising, running and re-initialising simulations of one or several systems',
    'each test makes one object and runs it once',
    [N+'simulations/simulation.py', N+'numerical_method/_method.py', N+'numerical_core/_numerical_core.py', 'pyphs/config.py'],
    [('simulation object', N+'simulations/simulation.py'), ('method construction from a copy', N+'numerical_method/_method.py')])

add('C18', 'Generated C++ computes the same trajectory, memory-safely',
    'The C++ program generated for a simulation produces, for every system, option and input, the same recorded trajectory as the Python evaluation up to floating-point rounding. The accessors of the generated class return the values of the method, its mutators set exactly the quantity named, a change of sample rate or of parameter set reaches every constant that depends on it, and a program that fails to build or run is reported as an error. The generated code compiles, initialises all its data, reads and writes only inside its arrays and executes no undefined operation.',
    ['inputs', 'programs', 'configurations'],
    'every system, numerical option, input and parameter sequence, initial state and substitution set',
    'tests only generate the files (and one small run where the compiler is present); nothing is compared or sanitized',
    [N+'cpp/method2cpp.py', N+'cpp/functions.py', N+'cpp/operations.py', N+'cpp/arguments.py', N+'cpp/simu2cpp.py', N+'cpp/tools.py', N+'cpp/cmake.py', N+'simulations/simulation.py'],
    [('code generation', N+'cpp/method2cpp.py')])

add('C19', 'Signals and sound files carry exactly the requested samples',
    'Generated excitation signals have the requested number of samples (duration times sample rate), start, end, attack, decay, ramp, cycle ratio, number of cycles, amplitudes, frequencies, noise level and offset. Low-pass filtering keeps the number and time of samples with unit gain at low frequency, and estimated transfer functions are the ratio of the output to the input at each frequency, and spectrograms show the level of each frequency at each instant relative to the largest level shown. Sound files written from a signal hold every sample once, in order, at the requested rate and within quantisation error, and reading them back returns the same signal.',
    ['inputs', 'configurations'],
    'every signal kind and parameter set, every sample rate and normalisation, signals of any length',
    'tests generate each kind once and never check its samples',
    ['pyphs/misc/signals/synthesis/synthesis_array.py', 'pyphs/misc/signals/waves.py', 'pyphs/misc/signals/processing.py'],
    [('array synthesis', 'pyphs/misc/signals/synthesis/synthesis_array.py'), ('wave files', 'pyphs/misc/signals/waves.py')])

add('C20', 'Quantities a system gives about itself equal their definitions',
    'The vectors and functions derived from a system equal their definitions at every point and in every state of the system: efforts a = (grad H, z, u), flows b = (dtx, w, y), dissipated power, gradient and hessian of the energy, jacobian of the dissipation, outputs (including the inputs of connections not made yet), names of derived symbols, labels and indices of the rows, sets of symbols, linear and nonlinear parts. The symbolic calculus used for them (gradient, hessian, jacobian, inverse, products and sums of vectors) is exact, refuses inputs it has no answer for, such as a singular matrix, and leaves its arguments and the system unchanged.',
    ['inputs', 'programs'],
    'every system, before and after moves and split, every point; every expression, vector and matrix given to the calculus tools',
    'tests call a few accessors on one system and check that they do not raise',
    ['pyphs/core/core.py', 'pyphs/core/structure', 'pyphs/core/maths', 'pyphs/misc/tools.py'],
    [('accessors', 'pyphs/core/core.py'), ('output function', 'pyphs/core/structure/output.py'), ('calculus', 'pyphs/core/maths')])

add('C21', 'LaTeX descriptions state the system they describe',
    'The LaTeX text written for a system, a netlist or a graph is well formed (groups, modes, environments, special characters) and complete: every formula in it, read back, has the value of the quantity it names: dimensions, constants, state, dissipation and port vectors, energy, gradient, hessian, dissipation laws and their jacobian, structure matrices and their blocks, outputs, observers, relations of the connections, components, nodes and parameters of the netlist. The documents hold this text, the title and the figures that they refer to, and describing a system does not change it.',
    ['inputs', 'programs', 'configurations'],
    'every system and network, symbol and file name, before and after split, reduction and connection',
    'tests only generate one document and never read it',
    ['pyphs/misc/latex', 'pyphs/core/core.py'],
    [('system', 'pyphs/misc/latex/latexcore.py'), ('netlist', 'pyphs/misc/latex/netlist.py'), ('document', 'pyphs/misc/latex/latex.py')])

add('C22', 'Figures show the recorded data',
    'Every curve drawn from a simulation has exactly the recorded values of the variable and component asked for, at the times of the samples asked for, each on its own axis under its own name; the power balance figures show the variation of energy, the dissipated and the source powers with their signs and sum. Curves given to the plot functions are drawn completely, with the scales, styles, labels and legends given, on a new figure, saved under the path and format asked for, and the arguments of the caller are not changed. The drawing of a graph shows each node and each edge once, oriented, with its label at its place and apart from parallel edges, and the drawing of its analysis has, for each edge, an arrow that ends on the node the analysis has found to be imposed by it.',
    ['inputs', 'configurations', 'histories'],
    'every record, list of variables, slice and window, plot option and graph (parallel and opposite edges included)',
    'tests draw a few figures and never look at them',
    ['pyphs/misc/plots', N+'simulations/h5data/h5data.py'],
    [('data', 'pyphs/misc/plots/data.py'), ('curves', 'pyphs/misc/plots/multiplots.py'), ('graphs', 'pyphs/misc/plots/graphs.py')])

add('C23', 'The generated Faust process describes the step of the method',
    'The Faust program generated for a system is well typed (numbers of signals of every composition), and its iteration, applied sample after sample from the same initial values, inputs and parameters, gives the state, increments, dissipation variables and selected outputs of the simulation of the same system once the iterations have converged. Inputs declared constant keep their value and place, constants and the sample rate have their values, every control parameter has a slider, the memories have the initial values given, and the system is not changed by the generation.',
    ['inputs', 'programs', 'configurations'],
    'every system without observers (linear and nonlinear storage and dissipation, empty parts), numerical option, choice of inputs, outputs, parameters and initial values',
    'the test generates one program and deletes it',
    ['pyphs/misc/faust'],
    [('generation', 'pyphs/misc/faust/_faust.py'), ('updates', 'pyphs/misc/faust/_method_invmat.py')])

add('C24', 'The generated audio plugin processes blocks as the method does',
    'The C++ sources and snippets generated for an audio effect make a processor that compiles, executes no invalid memory access or undefined operation, and computes, block after block, the outputs of the method for the chosen input and output ports (mono or stereo), with input and output gains and control parameters that move from their previous to their current value along each block and stay there. Ranges and default values of the controls are those given, other ports keep their initial values, and generating a plugin does not change the options of other generated codes.',
    ['inputs', 'programs', 'configurations', 'histories'],
    'every system, choice of ports, parameter ranges, sequence of blocks of any length and of changes of the controls between them',
    'the test generates the files of one plugin and deletes them',
    ['pyphs/misc/juce/_fx.py', N+'cpp/method2cpp.py'],
    [('snippets', 'pyphs/misc/juce/_fx.py')])

add('C25', 'The documentation of a component describes the component that is built',
    'The documentation generated for a component of the dictionary is well formed and true of the component: the documented example runs and gives the documented numbers of nodes and edges, the usage line and the netlist line build the same system as the example, with the same label, nodes and parameters whatever their values (numbers, labels, labelled values), the table of parameters holds each parameter with its description, unit and default, the defaults are those used, the power variables are those of the dictionary, every documented type of source is accepted and gives its own control, and each reference is given once. Tables and headings are valid reStructuredText for any content, and the pages and indexes written for the whole dictionary list each component once, under a title and link that agree.',
    ['inputs', 'configurations'],
    'every component of the dictionary, label, node names, parameter values, descriptions and references, every table and heading',
    'no test reads the documentation or runs its examples',
    [D+'tools.py', 'pyphs/misc/rst/tools.py', D+'electronics/__init__.py', D+'thermics/_source.py', D+'magnetics/_source.py'],
    [('documentation of a component', D+'tools.py:componentDoc'), ('tables', 'pyphs/misc/rst/tools.py'), ('pages', D+'tools.py:generateDicDoc')])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')

"""All properties: text, anchors, how they are decided. tools/gen.py writes properties.jsonl, MANIFEST.json and the table in DESIGN.md."""

P = []


def prop(id, title, statement, over, text, why, files, mech, how, bound):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, how=how, bound=bound))


I = 'neuro_shooting/shooting_integrands.py'
M = 'neuro_shooting/shooting_models.py'
B = 'neuro_shooting/shooting_blocks.py'
D = 'neuro_shooting/state_costate_and_data_dictionary_utils.py'
G = 'neuro_shooting/generic_integrator.py'
O = 'neuro_shooting/overwrite_classes.py'
A = 'neuro_shooting/activation_functions_and_derivatives.py'
PI = 'neuro_shooting/parameter_initialization.py'
S = 'neuro_shooting/striding_block.py'
R = 'neuro_shooting/res_net.py'
H = 'neuro_shooting/shooting_hooks.py'
TB = 'neuro_shooting/tensorboard_shooting_hooks.py'
V = 'neuro_shooting/validation_measures.py'
L = 'neuro_shooting/custom_lr_scheduler.py'
E = 'neuro_shooting/experiment_utils.py'
C = 'neuro_shooting/command_line_execution_tools.py'
U = 'neuro_shooting/utils.py'
F = 'neuro_shooting/figure_utils.py'
FS = 'neuro_shooting/figure_settings.py'
VV = 'neuro_shooting/vector_visualization.py'

prop('C01', 'Every model evolves particles, costates and data by its shooting equations',
     'For every shooting model, the parameters of its layers are the unique stationary point of the weighted kinetic energy minus the mean over all particles of the inner product of costates and state derivatives; states and data move with the model\'s field under these parameters, and costates with the negative transposed derivative of that field. '
     'This holds for any number of particles, particle and batch size, number of concatenated blocks, nonlinearity, (odd) filter size, parameter weight and inflation factor, and a block integrated with explicit Euler steps follows exactly the discrete flow of these equations.',
     ['inputs', 'configurations'], 'all models x nonlinearities x numbers of particles/features/blocks x weights x values of states, costates and data',
     'the tests evaluate two models with one fixed size each; every layer, state and costate of every model has its own hand-written equation',
     [I, M], [('Lagrangian, Euler-Lagrange and Hamiltonian equations by automatic differentiation', I + ' compute_gradients_direct/auto_*'), ('right hand sides and parameter objects of the models', M + ' rhs_advect_*, create_default_parameter_objects')],
     'differential: compute_gradients() and Euler-integrated blocks of 12 models against an independent reference (lib/ns.py Ref: einsum layers, envelope theorem) with concatenated blocks and random states', '<=5 particles, <=3 blocks, <=4 features, inflation <=4')

prop('C02', 'Hand-derived shooting equations agree with the automatically derived ones',
     'For every model that offers hand-derived ("analytic") equations, switching them on changes neither the layer parameters, nor the derivatives of states, costates and data, nor what a block returns, nor its norm penalty, nor any gradient of a loss. '
     'This holds for all nonlinearities, numbers of particles, sizes, inflation factors and parameter weights that these equations support.',
     ['inputs', 'configurations'], 'all models with analytic equations x nonlinearities x sizes x weights x values',
     'the tests compare a single configuration of the up-down model; each analytic equation is separate hand-written matrix algebra',
     [M, I, A], [('analytic costate and parameter equations', M + ' optional_rhs_advect_costate_analytic, optional_compute_parameters_analytic'), ('selection of the solution', I + ' compute_gradients')],
     'differential: the same random states through both code paths of all analytic models (derivatives, parameters, flows, penalties, gradients)', 'particle dimension 1 (all the code supports), one block, <=5 particles, <=4 features')

prop('C03', 'Norm penalty is the initial kinetic energy, and the Hamiltonian is conserved',
     'After a forward pass from time zero the norm penalty of a block is half the weighted sum of squares of the layer parameters at this initial time (averaged over all parameter sets in the particle-free mode): a function of the current parameters only, whatever was evaluated before, differentiable with the matching gradient. '
     'Along a flow of particles the parameters stay optimal and the Hamiltonian (mean over the particles of costate times state derivative, minus kinetic energy) stays constant up to the integration error.',
     ['histories', 'configurations', 'inputs'], 'histories of forward passes, parameter changes and time settings for all models and modes',
     'no test looks at the penalty after more than one evaluation or at conserved quantities',
     [I, M], [('norm penalty bookkeeping', I + ' compute_gradients / get_norm_penalty / reset'), ('kinetic energy', I + ' compute_kinetic_energy')],
     'model-based histories of forward passes/updates against the reference kinetic energy at the current particles; finite differences of the penalty; invariant along rk4 flows with error bound from step halving', 'histories of <=6 operations')

prop('C04', 'Data samples are transported independently; particles are exchangeable',
     'Every data sample is moved by the field of the particles only: the result of a sample does not depend on the other samples of the batch, on its position in the batch or on the batch size, and never influences the particles. '
     'Permuting the particles permutes their trajectories and changes nothing else, and a sample that starts in the state of a particle moves with this particle.',
     ['inputs', 'configurations'], 'all models and modes, batches, selections/permutations/duplicates of samples and particles',
     'relations between runs are not expressed by example tests',
     [I, M, D], [('data derivative uses parameters computed from particles only', I + ' compute_gradients'), ('concatenation along features', D)],
     'metamorphic relations on blocks (selection, duplication, replacement, permutation, data := particles, additional leading dimensions)', '<=5 particles, <=5 samples')

prop('C05', 'Blocks are integrated exactly over the requested times',
     'A block with an end time integrates from 0 to this time; with a vector of times (increasing or decreasing) it starts at its first entry and returns, in order, one result per entry, each equal to the result of ending there, for output, states, costates and data. '
     'The most recent setting counts, whatever was set, evaluated, differentiated or moved before; integrating in two parts equals integrating once, and integrating backward undoes integrating forward.',
     ['histories', 'configurations', 'inputs'], 'histories of time settings, evaluations and casts; random time vectors for all models and modes',
     'tests use one vector of times and one model',
     [B, G], [('time settings', B + ' set_integration_time(_vector), _apply, forward'), ('integration', G + ' GenericIntegrator.integrate')],
     'model-based histories (time settings, evaluations, parameter changes, casts) against fresh blocks; arbitrary end times against a known flow; vector = separate end times; semigroup through a pass-through block; forward/backward with tight tolerances', 'histories <=7 operations, <=5 times')

prop('C06', 'Checkpointed integration is transparent',
     'Integrating forward or backward in time with any number of checkpoints (in total or between the requested times) returns the same values for all requested times, the same norm penalty and the same gradients for data and all parameters as integrating without checkpoints; what lies between two checkpoints is computed again for the gradient instead of being kept. '
     'Settings that contradict each other are rejected.',
     ['inputs', 'configurations'], 'numbers and kinds of checkpoints x time vectors x models x methods',
     'no test uses checkpoints',
     [G, B], [('segments between checkpoints and selection of the requested times', G + ' GenericIntegrator.integrate / _integrate_with_checkpoints')],
     'differential: with vs without checkpoints (values, penalty, gradients); known differential equation that records its evaluation times', '<=6 checkpoints, <=6 times; one known finding (rnn mode)')

prop('C07', 'Integrators follow their method, step size and tolerances',
     'Every supported integration method solves the given initial value problem: fixed-step methods follow their formula on the grid given by the requested step size (or by the requested times), however the step size is given; adaptive methods meet their tolerances; the adjoint method has the gradients of direct differentiation. '
     'Options and further arguments reach the solver as they were given. Unknown methods and libraries are rejected, and options of the caller are not changed.',
     ['inputs', 'configurations'], 'methods x step sizes x ways to specify them x time grids x right hand sides',
     'the tests use one method with one step size',
     [G], [('construction of the integrator and its options', G + ' GenericIntegrator.__init__'), ('integration', G + ' integrate')],
     'discrete formulas (euler, midpoint, rk4 3/8) for linear systems; nonlinear systems against a high-accuracy scipy solution; adjoint vs direct gradients; number of evaluations vs tolerance; solver options and adjoint arguments against a direct call of torchdiffeq', 'methods available in the installed torchdiffeq; anode is not installed')

prop('C08', 'States, costates and data survive vectorization, merging and concatenation',
     'Converting dictionaries of states, costates and data to one vector and back is the identity for every shape, memory layout, set of names and number of time points, is differentiable, and inconsistent or wrongly typed containers are rejected. '
     'Concatenating along the feature dimension and splitting again returns every block its own part; merging the dictionary of a block with passed-on ones keeps all of them unchanged; new states of the data are filled with zeros in the matching size.',
     ['inputs'], 'random dictionaries of dictionaries of tensors',
     'tests only run them implicitly with one or two blocks of equal size',
     [D, I], [('assembly plans', I + ' assemble_tensor/disassemble_tensor, ' + D + ' assemble_tensor/disassemble_tensor'), ('concatenation', D + ' scd_utils concatenate/disassemble functions')],
     'round trips with random containers, memory layouts and leading time dimensions; explicit reference for concatenation, merging, zero padding', '<=4 blocks, <=3 states, <=4 dimensions')

prop('C09', 'Nonlinearities are what their names say, with the right derivatives',
     'The functions selected by the names identity, relu, tanh, sigmoid and softmax (a smooth maximum x*sigmoid(x)) are computed elementwise in any shape and precision, and the derivative returned with a name is the derivative of this function everywhere it exists. '
     'Names are not case sensitive, and unknown names are rejected, also when a model is created.',
     ['inputs'], 'all names and spellings x real arguments (large, tiny, negative) x shapes x types',
     'derivatives are only used by the analytic equations of one test',
     [A], [('lookup of nonlinearities', A + ' get_nonlinearity / get_nonlinearity_derivative')],
     'independent formulas and central differences/autograd on random arguments; fuzzed names', 'float32/float64, |x| <= 1e3')

prop('C10', 'Layers without own parameters behave as their torch.nn counterparts',
     'Linear layers, 2D convolutions (kernel, stride, padding, padding mode, dilation, groups, bias) and group normalizations whose parameters are set from outside compute exactly what the torch.nn layer with these parameters computes, with the same gradients for input and parameters. '
     'They register no parameters, scalar weights for parameters are kept and returned as they were set, and moving or casting a layer moves its parameters.',
     ['inputs', 'configurations', 'histories'], 'layer settings x parameters x inputs; histories of weight settings and casts',
     'tests only use linear layers inside of one model',
     [O], [('layers with external parameters', O + ' RemoveParameters, Linear, Conv2d, GroupNorm, SharedInterface')],
     'differential against torch.nn with copied parameters; histories of weights and casts against a dictionary', 'sizes <=6, groups <=3')

prop('C11', 'Training gradients are right, evaluations reproducible, all parameters optimized',
     'The gradient of any differentiable loss of a block\'s results and norm penalty with respect to all its parameters and the data is the derivative of that loss; evaluating a block again without changes gives the identical result, changes neither its parameters nor its input, and a small enough step along the negative gradient decreases the loss. '
     'After the first evaluation a block\'s parameters are exactly its particles (or layer parameters in the particle-free modes), their enlargements and the trained initial conditions, each trainable and each present once; asking for them before is an error.',
     ['inputs', 'histories', 'configurations'], 'all models/modes/methods, random losses; histories of evaluations',
     'tests compare gradients for one model',
     [I, B], [('autodiff of the flow', I + ' forward/compute_gradients'), ('registration', B + ' register_* , parameters')],
     'directional central differences against backward() per group of parameters; repeated evaluations; descent', '<=4 steps')

prop('C12', 'Parameter modes: fixed, piecewise constant in time, or computed once',
     'With particle-free parameters the field at time t uses the parameter set of the interval of equal length containing t (first/last set before/after the ends), in any order of queries, all sets are trained, and particles have no influence on data; a single set gives an autonomous system. '
     'In the mode that computes its parameters once, they are computed from the particles at the initial time of each pass and kept for the whole pass.',
     ['histories', 'inputs', 'configurations'], 'query sequences of times; models x modes x numbers of intervals',
     'no test uses these modes',
     [B, I], [('time lookup', B + ' ParticleFreeParameterFunc'), ('use of external or cached parameters', I + ' compute_gradients')],
     'model-based query sequences; Euler flows against the reference with known parameters; perturbation of a single interval; equal sets = one set', '<=8 intervals')

prop('C13', 'Chains of blocks pass states, costates and data on correctly',
     'In a chain of shooting blocks every block continues the states, costates and data of the blocks before and of its own particles jointly, as one system over the concatenated features under the blocks\' names, and returns all of them together with the concatenated output, also for vectors of times. '
     'Blocks without own particles only continue what they get; loss gradients reach the particles of all blocks; what a caller passes in is never modified; inconsistent or missing input is rejected.',
     ['configurations', 'inputs'], 'chains of 2-3 blocks: names, sizes, models, times, pass-through or not',
     'tests have one chain of identical blocks',
     [B, I, D], [('pass-through handling', B + ' forward, _get_initial_conditions_from_data_dict_of_dicts'), ('joint system', I + ' compute_gradients')],
     'differential: chain against the reference flow on concatenated states; finite differences; snapshots of inputs', '<=3 blocks')

prop('C14', 'Passed-on particles are enlarged without changing their content',
     'When a convolutional block gets smaller particles than its own, they are embedded (centered, remaining border filled by additional parameters of this block) so that the old values stay where they were; sizes that cannot be embedded are rejected. '
     'The additional parameters are created once, at the first evaluation, and stay the same objects; if states are to be kept at zero, own states and state enlargements are exactly zero and never trained while costates are.',
     ['configurations', 'histories'], 'sizes of particles, numbers of particles, histories of evaluations and optimization steps',
     'no test enlarges particles',
     [B], [('enlargement', B + ' _create_*enlargement_parameters, _enlarge_*'), ('zero states', B + ' register_state_and_costate_parameters')],
     'reference embedding; histories of evaluations and optimizer steps with identity checks', 'sizes <=6')

prop('C15', 'Striding keeps every s-th entry of states, costates and data',
     'A striding block with stride s along a dimension of size n keeps the entries n mod s, n mod s + s, ... (floor(n/s) of them) of states, costates and data of all blocks along the requested dimensions, for any combination of strides and dimensions, in order, and leaves everything else, names, and its inputs unchanged. '
     'It is differentiable with the gradient going to the kept entries only; specifications that do not fit are rejected.',
     ['inputs', 'configurations'], 'shapes x dimensions x strides x containers',
     'the only script on striding has no assertions',
     [S], [('selection of entries', S + ' ShootingStridingBlock')],
     'explicit index model on random containers', '<=4 spatial dimensions, sizes <=9, strides <=4')

prop('C16', 'The residual network is the composition of its documented parts',
     'A residual network of shooting blocks computes: input convolution, batch normalization and activation, then for all layers its shooting blocks one after the other with passing on states, costates and data and a striding block between layers, then the global maximum over space and a linear layer. '
     'Its blocks have the configured numbers, channels and particle sizes, all parameters of all blocks are trained, and evaluations are reproducible; inconsistent settings are rejected.',
     ['configurations', 'inputs'], 'numbers of layers/blocks/channels/particles, image sizes, models',
     'no test builds a network',
     [R, B, S], [('construction and forward pass', R + ' BasicResNet')],
     'differential: network vs composition of its own sub-blocks with torch functions; finite differences; training histories', '<=3 layers, <=3 blocks')

prop('C17', 'Hooks observe the true quantities and never change results',
     'Registered hooks are called for every evaluation of the equations, in order of registration, until they are removed, with the states, costates, data, derivatives, time and parameters of exactly this evaluation; hooks that return nothing never change results or gradients. '
     'The provided recording hook stores for each evaluation the time, all states, costates, data, derivatives, parameters, norms and energy, as values that do not change later, and the tensorboard hook logs weights and biases at the initial time of every tenth epoch.',
     ['histories', 'configurations'], 'histories of registration, removal, evaluation and training steps',
     'tests do not use hooks',
     [H, I, TB], [('hook calls', I + ' register_lagrangian_gradient_hook, compute_gradients'), ('recording', H + ' parameters_and_states_hook'), ('tensorboard', TB)],
     'model-based histories of hook registrations; recorded values against recomputed ones and the reference', 'histories <=8 operations')

prop('C18', 'Norms and complexity measures are computed as defined',
     'The recorded squared Frobenius, nuclear and spectral norms of linear layers are those of the weight matrices (biases do not count), individually and summed over all layers. '
     'The complexity measures are the integrals over time of log2 of the midpoint values of these recorded sums, where steps back in time count nothing.',
     ['inputs'], 'matrices of all shapes and ranks; series of times and norms',
     'no test computes them',
     [I, H, V], [('norms', I + ' compute_parameter_norms / ' + O), ('measures', V + ' compute_complexity_measures')],
     'numpy SVD reference; independent integration of random series', 'matrices <=6x6, series <=12')

prop('C19', 'Learning rate scheduler reduces and restarts exactly as documented',
     'The learning rate of each parameter group is multiplied by the factor (never below its minimum, and only if the change exceeds eps) exactly when the metric has not improved by the threshold for more than patience consecutive epochs outside of the cooldown, for min/max and relative/absolute modes, any history of metrics including not-a-number and infinity, and after saving and restoring. '
     'After an effective reduction the best metric so far is forgotten, convergence is reported from the first due reduction that cannot change a learning rate any more, and wrong settings are rejected.',
     ['histories', 'configurations'], 'histories of metrics, options, saved and restored states',
     'no test uses the scheduler',
     [L], [('reduction', L + ' CustomReduceLROnPlateau.step')],
     'model-based histories against a reimplementation from the documentation', 'histories <=40 epochs')

prop('C20', 'Parameter sweeps run every combination exactly once and skip finished ones',
     'A sweep over parameters runs every combination of the given values with every seed exactly once, with the fixed parameters merged in (swept values win, true values become flags, false ones are left out), each in its own output directory named after seed and swept values; sweeps never affect later ones nor change the caller\'s dictionaries. '
     'An experiment whose result exists is skipped unless recomputation is forced, and everything else is run.',
     ['histories', 'configurations', 'inputs'], 'sweep definitions, templates, seeds, partially finished results, repeated sweeps',
     'no test runs sweeps',
     [E, C], [('sweep', E + ' recursively_sweep_parameters'), ('merge and run', E + ' merge_args, run_experiment')],
     'itertools.product reference; real runs with a recording interpreter that finishes a random subset, repeated', '<=3 swept parameters, <=3 values')

prop('C21', 'Scripts are executed with exactly the requested arguments, device and log',
     'Executing a script with given arguments runs the requested interpreter on this script with every option name and value as given (options without a value as flags), on the requested device, after the requested preparation commands, and with its output in the requested log file. '
     'Configuration strings contain every given key and value in order, stage log names are distinct for distinct stages and names, and command lines are parsed to the given values with the documented defaults.',
     ['inputs', 'configurations'], 'argument dictionaries incl. special characters, devices, logs, command lines',
     'no test executes scripts',
     [C, E], [('execution', C + ' run_command_with_args, execute_python_script_via_bash, execute_command'), ('parsing', E + ' setup_cmdline_parsing')],
     'executing a recording interpreter in a scratch directory and comparing argv, environment, logs', 'values without shell syntax where the API documents none')

prop('C22', 'Initializers create parameters of the requested size, kind and magnitude',
     'Initializers create trainable parameters of exactly the requested size: zeros if requested, the given constant, or independent normally distributed random values with the given magnitude as standard deviation (around zero or around a given batch of data), and blocks use the initializers they were given for states and costates. '
     'Random initializations are different each time, reproducible with the random seed, and contradicting requests and wrong kinds of sizes are rejected.',
     ['inputs', 'configurations'], 'sizes x kinds x magnitudes x batches',
     'tests do not look at initial values',
     [PI, I], [('initializers', PI + ' *EvolutionParameterInitializer, *ParameterInitializer')],
     'exact checks for shapes/zeros/constants/samples, statistical checks with false-alarm bound < 1e-6 for magnitudes', '<=4 dimensions')

prop('C23', 'Data starts in its given state, with configured initial conditions for the rest',
     'When data enters a block its first state is exactly the given data, and every further state is zero (a copy for the symmetrized model), or, if the initial condition is trained, exactly the trained value, linear map or small network of the data, the same for every sample and also visible at the initial time of the results. '
     'Trained initial conditions are parameters of the block with correct gradients; unknown kinds of initial conditions are rejected.',
     ['inputs', 'configurations'], 'models x kinds of initial conditions x batches x modes',
     'tests only use zero initial conditions',
     [I, M, B], [('initial data states', M + ' get_initial_data_dict_from_data_tensor / ' + I)],
     'results at the initial time against explicit formulas from the block\'s own registered parameters; finite differences', '<=4 samples')

prop('C24', 'Blocks and networks can be saved, restored, copied and cast',
     'A block or network restored from its saved parameters, from a saved file or pickle, or copied, gives identical results, penalties and gradients and is independent of the original afterwards. '
     'After casting or moving a block or a chain of blocks, in any sequence and whatever the default type of torch is, all its parameters, states and results have the new type, and the results agree with those before up to precision.',
     ['histories', 'configurations'], 'models x modes x ways of saving x sequences of casts',
     'no test saves or casts a block',
     [B, I, R], [('parameters held in dictionaries besides the registered ones', B + ' _apply, to, register_*'), ('casting of integrands', I + ' _apply, to')],
     'round trips with fresh blocks of different initial values; sequences of casts against a double precision copy', 'casts between float32 and float64 (no other devices here)')

prop('C25', 'Counting, freezing and seeding do exactly what they say',
     'The number of parameters of a model is reported as fixed, optimized and overall counts that always match; freezing and unfreezing by name affects exactly the named parameters, keeps all values, and frozen parameters are not changed by optimization while all others still are. '
     'Setting a seed makes all random numbers of Python, numpy and torch, and hence the initialization of blocks, reproducible; the seed -1 leaves all generators untouched.',
     ['histories', 'inputs'], 'histories of freezing/unfreezing/optimizing; modules; seeds',
     'no test uses them',
     [U], [('bookkeeping', U)],
     'model-based histories against a set of frozen names; generators compared with freshly seeded ones', 'histories <=6 operations')

prop('C26', 'Storing states with swapped dimensions only changes their orientation',
     'With the option to transpose states during the evaluation, the derivatives for transposed states, costates and data are the transposed derivatives, for all models and numbers of blocks. '
     'A block with this option that is given transposed particles and data returns the transposed results, the same norm penalty and the transposed gradients.',
     ['inputs', 'configurations'], 'models x sizes x blocks x methods',
     'no test uses this option',
     [I], [('transposition around the equations', I + ' forward, transpose_state_dict_of_dicts')],
     'metamorphic: with the option on transposed input = transposed result without', 'block level for models with equally sized states')

prop('C27', 'Figures show the recorded values and titles survive LaTeX',
     'Plots of recorded evolutions and trajectories contain exactly the recorded or given values (one figure per recorded quantity or time, particles at their positions with their costates as arrows, higher-dimensional states projected to their principal components), and files are written with the documented names. '
     'Escaping a text for LaTeX leaves no active special character and loses nothing; lists of arrays are stacked unchanged, and plot settings are restored after saving figures.',
     ['inputs', 'configurations'], 'texts, arrays, records, trajectories, plot settings',
     'no test creates figures',
     [F, FS, VV], [('LaTeX escaping', F + ' escape_latex_special_characters'), ('plots', VV)],
     'round trip through a LaTeX reader; inspection of the curves and arrows of the created figures', 'no LaTeX installation here: pgf rendering itself is not executed')

prop('C28', 'Models that users build on the base classes follow their own shooting equations',
     'A model that a user defines on the library\'s base classes, by its states, its linear or convolutional layers (each with an optional bias and weights of the penalty) and its right hand side, is evolved by the equations derived from exactly that right hand side: for layers that enter linearly the optimal parameters, for other models the documented five (optimal transport: ten) gradient steps of size 0.5 on the Lagrangian starting at the initial values of the layers. '
     'States, costates, data, norm penalty and gradients follow, whatever the names, number and sizes of states and layers and whether right hand sides depend on time; this includes the dampened up-down and the optimal transport model.',
     ['inputs', 'configurations'], 'right hand sides (states, layers, nonlinearities, damping and time dependent terms) x base classes x weights x sizes',
     'the tests only use two of the given models; the base classes have to work for any right hand side',
     [I, M, O], [('automatic shooting for linear and nonlinear parameters', I + ' ShootingLinearInParameter*/ShootingNonlinearInParameter*/OptimalTransportNonLinearInParameter'), ('layers with weights', O)],
     'random user-defined models through blocks with explicit Euler steps against an independent derivation (envelope theorem, unrolled gradient steps); finite differences', '<=3 states, <=7 layers, <=4 particles, <=3 steps')

DL = 'neuro_shooting/data_loaders.py'
N = 'demos/neurips20/'

prop('C29', 'Experiments train and evaluate on exactly the data they describe',
     'The data of the experiments are what they are said to be: points of the two classes lie between the stated radii, in the stated numbers and uniformly spread; spirals solve the stated differential equation; function samples are values of the stated function in the stated range; images and labels belong together and to the stated part (training or test) of the data. '
     'Training samples are contiguous windows of the trajectory that never leave it, class-balanced or distance-weighted as described; batches have the requested size; training data are shuffled (and augmented only if requested), each sample appears at most once per pass, evaluation data are fixed and in order; the same seed gives the same data; unknown functions and data sets are rejected.',
     ['inputs', 'configurations'], 'sizes, radii, dimensions, batch sizes, sampling modes, data sets, seeds',
     'no test creates data',
     [DL, N + 'utils.py', N + 'spiral.py', N + 'simple_functional_mapping_example.py'],
     [('image data', DL + ' get_data_loaders'), ('point clouds, images', N + 'utils.py'), ('trajectories', N + 'spiral.py generate_data, get_batch, FunctionDataset, get_function_data_loaders'), ('functions', N + 'simple_functional_mapping_example.py get_sample_batch, FunctionDataset')],
     'invariants of every sample, closed form / independent ODE solution, statistical checks with limits beyond six standard deviations; image data sets are replaced by generated ones', '<=80 points per trajectory, <=40 points per class')

prop('C30', 'Networks, predictions and measures of the experiments follow their definitions',
     'The baseline networks compute their residual, recurrent and convolutional formulas with separate or shared weights, all of which are trained. Blocks made by the experiments from their options have exactly the flow and penalty of a directly created block with these options. '
     'Predictions over long times in chunks of time continue where the last chunk ended and cover all times; losses are the weighted sums of the stated distance and the norm penalty. Autoencoders decode each latent state at its own place, do not use the evaluation time for training, and treat samples of a batch independently in evaluation mode; classifiers apply their linear layer to the transformed points. Evaluation errors, test losses, accuracies and recorded trajectories are those of the given model and data.',
     ['inputs', 'configurations'], 'networks, depths, weights, options, numbers of chunks, batches',
     'no test executes them',
     [N + f for f in ['simple_discrete_neural_networks.py', 'spiral.py', 'autoencoder.py', 'cc.py', 'rot.py', 'balls.py']],
     [('networks', N + 'simple_discrete_neural_networks.py, autoencoder.py'), ('chunks of time and losses', N + 'spiral.py get_time_chunks, compute_validation_data, compute_loss'), ('construction', N + '*.py setup_shooting_block, setup_integrator'), ('measures', N + 'cc.py test/train/hook_in, rot.py / balls.py evaluate')],
     'differential: networks with random weights against direct formulas, blocks made by the experiments against blocks made by the check, predictions against piecewise evaluation by hand', '<=12 layers, <=12 time points, batches <=9')

prop('C31', 'Experiments are reproducible and report what the trained model does',
     'A run of an experiment (function fitting, spiral, concentric circles, rotated MNIST, bouncing balls) with a given seed and options completes and, run again, gives the same results and parameters. '
     'The saved losses, penalties, errors, images, numbers of parameters and options are those of the trained and saved model on the test data; a saved model can be loaded and predicts the same. Options have their stated effect: all parameters are trained except for frozen particles, which stay where they were placed until they are unfrozen; clamped particles stay in their range; the requested numbers of iterations and batch sizes are used. The sweeps run every stated combination once per seed, with options the experiment accepts, each in a directory of its own.',
     ['histories', 'configurations'], 'experiments x options x seeds (complete training runs)',
     'no test runs an experiment',
     [N + f for f in ['simple_functional_mapping_example.py', 'spiral.py', 'cc.py', 'rot.py', 'balls.py', 'run_experiments_spiral.py', 'run_experiments_spiral_rnn.py', 'run_long_iteration_experiments_simple_functional_mapping.py', 'run_long_iteration_experiments_simple_functional_mapping_rnn.py']],
     [('main programs', N + 'spiral.py, simple_functional_mapping_example.py, cc.py, rot.py, balls.py'), ('sweeps', N + 'run_*.py')],
     'metamorphic and differential: complete runs as from the command line in a scratch directory (repeated, with other options), saved results against a recomputation with the final model', '<=2 training iterations; figures are stubbed (C27 checks them)')

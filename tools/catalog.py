"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table. Run by hand when the table changes."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = 'neuro_shooting/'
ACT, BLK, INT, MOD, SCD = N + 'activation_functions_and_derivatives.py', N + 'shooting_blocks.py', N + 'shooting_integrands.py', N + 'shooting_models.py', N + 'state_costate_and_data_dictionary_utils.py'
GEN, OVR, INI, STR, HOOK, LRS, CLI, VAL, UTL, EXP, RES = (N + x for x in (
    'generic_integrator.py', 'overwrite_classes.py', 'parameter_initialization.py', 'striding_block.py', 'shooting_hooks.py', 'custom_lr_scheduler.py',
    'command_line_execution_tools.py', 'validation_measures.py', 'utils.py', 'experiment_utils.py', 'res_net.py'))

P = []


def prop(id, title, statement, over, quant, why, files, mech, observe=None, level_note=''):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=None),
                  _note=level_note))


prop('C01', 'Each activation comes with its own derivative',
     'For every supported nonlinearity, the function handed out is the one its name stands for, and the derivative handed out with it is the derivative of exactly that function at every input. '
     'Names are matched without regard to case, and an unknown name is rejected.',
     ['inputs'], 'all real inputs (relu: all but the kink at 0), every supported nonlinearity name',
     'No test evaluates the derivatives; agreement must hold at every real input, not at sampled points.',
     [ACT], [('nonlinearity lookup and derivative functions', ACT)], ['get_nonlinearity'])
prop('C02', 'Hand-derived shooting equations equal the automatically derived ones',
     'For every model that offers hand-derived equations, switching them on changes nothing: layer parameters, particle, costate and data derivatives equal those obtained by automatic differentiation.',
     ['inputs', 'configurations'], 'all particle positions, costates, data values and times; every model with hand-derived equations, every nonlinearity, with and without parameter weights',
     'The tests compare the two only loosely, on one random draw of a few models; a wrong term can vanish on special inputs.',
     [MOD, INT, ACT], [('analytic parameter and costate equations', MOD), ('choice between the two', INT + ': compute_gradients')], ['compute_gradients with use_analytic_solution on and off'])
prop('C03', 'Layer parameters are the optimal ones for the current particles',
     'The layer parameters a model derives from its particles and costates minimise the weighted squared norm of the parameters minus the mean (over particles) pairing of costates with the stated vector field. '
     'In particular the energies it reports are those of this problem: half the weighted sum of squares, and the mean pairing. The optimal transport model, whose energy is not quadratic, is excepted.',
     ['inputs', 'configurations'], 'all particle positions and costates, every model, nonlinearity, weighting and number of particles within the bounds',
     'Tests check shapes or single random draws; stationarity is an identity in all particles and costates.',
     [INT, MOD, OVR], [('parameter computation', INT + ': compute_parameters_directly'), ('energies', INT + ': compute_kinetic_energy, compute_potential_energy'), ('weights', INT + ': divide_and_store_in_parameter_objects')],
     ['compute_parameters', 'compute_kinetic_energy', 'compute_potential_energy'])
prop('C04', 'Costates follow Hamilton\'s equations and the energy is conserved',
     'Along the flow the costate of every particle changes by minus the gradient, with respect to that particle\'s state, of its pairing with the vector field at the current layer parameters held fixed. '
     'Consequently the energy (pairing minus parameter norm) has zero time derivative for every particle configuration. The optimal transport model is excepted.',
     ['inputs', 'configurations'], 'all particle positions and costates, every model, nonlinearity, weighting, also for chained blocks and for blocks set up with a different number of particles than they receive',
     'Conservation and the costate equation are identities over all states; tests sample single draws and never check conservation.',
     [INT, MOD, SCD], [('costate equation by differentiating the reduced Lagrangian', INT + ': rhs_advect_costate_reduced_dict_of_dicts'), ('dictionary/tuple conversion', SCD)], ['compute_gradients'])
prop('C05', 'Particles and data are moved by the stated vector field, sample by sample',
     'The time derivatives of particles and of transported data are the model\'s stated equation evaluated at the reported layer parameters. '
     'A sample moves the same whatever else is in the batch, data never influences the particles, and the order of the particles is irrelevant. '
     'The flat derivative handed to the ODE solver has the layout of the flat state it was given and depends on nothing else.',
     ['inputs', 'configurations', 'histories'], 'all particle, costate, data and parameter values; every model; batch sizes, feature and channel counts, chained blocks and extra leading data dimensions within the bounds; any earlier calls',
     'Tests evaluate one random configuration per model and do not vary batch composition or order.',
     [MOD, INT, SCD], [('vector fields', MOD + ': rhs_advect_state'), ('solver entry point', INT + ': forward')], ['compute_gradients', 'forward of the integrand'])
prop('C06', 'Flattening and regrouping of states loses and mixes nothing',
     'Flattening state, costate and data dictionaries into one vector and taking it apart again, with or without a leading time axis, with stored or explicitly passed plans, returns every tensor unchanged under its own block and name. '
     'The same holds for concatenating blocks and splitting them again and for conversions between dictionaries and tuples; zero padding for new channels is zero, of matching size, and inconsistent inputs are rejected.',
     ['inputs', 'configurations'], 'all tensor values, block names, sizes and numbers of blocks within the bounds',
     'Tests see one layout with equal sizes, where swapped entries of equal size go unnoticed.',
     [SCD, INT], [('assemble/disassemble', SCD), ('concatenate/deconcatenate', SCD)], ['assemble_tensor', 'disassemble_tensor', 'concatenation helpers'])
prop('C07', 'The norm penalty is the energy of the initial parameters of this integration',
     'After an integration starting at time zero, the norm penalty of a block equals half the weighted squared norm of the layer parameters at time zero; when layer parameters are optimised directly over several time pieces it is the average of that quantity over the pieces. '
     'It never stems from an earlier integration or a later time: an integration that does not start at zero reports none.',
     ['inputs', 'histories', 'configurations'], 'all particles, costates and directly optimised parameters, weights, sequences of integrations and evaluation times',
     'Tests never read the penalty after more than one integration nor compare it with its definition.',
     [INT, BLK], [('penalty recorded at time zero', INT + ': compute_gradients_autodiff, compute_gradients_analytic'), ('reset before each integration', BLK + ': forward')], ['get_norm_penalty'])
prop('C08', 'Chaining blocks continues the flow; new channels start at zero',
     'A pass-through block started from the outputs of another block integrates exactly those states, costates and data, so two chained integrations equal a single one over both intervals. '
     'A block that adds its own particles starts from its own parameters together with what it received, pads the data of its new channels with zeros, and returns everything concatenated along channels, earlier block first by name. '
     'Reusing a block name, or passing only states or only costates, is refused.',
     ['inputs', 'configurations'], 'all received states, costates, data, own parameters and all solver trajectories; every model family, with and without leading data dimensions and time-vector output',
     'Tests run one random chain and only look at shapes.',
     [BLK, SCD], [('initial condition assembly', BLK + ': _get_initial_conditions_from_data_dict_of_dicts'), ('concatenated outputs', BLK + ': forward')], ['ShootingBlockBase.forward'])
prop('C09', 'Enlargement embeds received states and trains only the new border',
     'When a block needs larger particles than it receives, every received state and costate is embedded unchanged at the centre (the extra one of an odd margin at the end) of a tensor of the needed size whose other entries are the block\'s own enlargement parameters, each used exactly once and registered for optimisation. '
     'The parameters are created once and reused by later integrations; equal sizes are passed on untouched and shrinking is refused.',
     ['inputs', 'configurations', 'histories'], 'all received values and enlargement parameters, sizes and margins within the bounds, any number of integrations',
     'Tests enlarge one size once and check shapes only.',
     [BLK], [('enlargement', BLK + ': _enlarge_tensor, _create_generic_dict_of_dicts_enlargement_parameters')], ['ShootingBlockBase.forward', 'named_parameters'])
prop('C10', 'Striding keeps the same positions of states, costates and data',
     'Striding keeps, along each requested spatial dimension, every n-th entry starting at the size modulo n, in order and unchanged, identically for states, costates and data of all blocks (data may carry extra leading dimensions), and touches no other dimension. '
     'Batch and channel dimensions, dimensions that do not exist, and mismatching stride specifications are refused.',
     ['inputs', 'configurations'], 'all tensor values; sizes, strides and dimensions within the bounds; int, tuple and list specifications',
     'Tests stride one even-sized example.',
     [STR, SCD], [('striding', STR)], ['ShootingStridingBlock.forward'])
prop('C11', 'Checkpointing does not change what an integration returns',
     'Integrating with checkpoints, given as a number or as a time interval, returns the solution at exactly the requested times, in order, each once, starting with the initial value; the solver passes through every requested and checkpoint time and restarts from where it stopped. '
     'Hence the result equals that of the direct integration on the same time grid, and so do its gradients. '
     'The configured solver, tolerances, step size and options are the ones used, defaults fill in only what was not given, and unknown libraries or solvers are refused; this also holds for a block that is given these settings instead of a solver.',
     ['inputs', 'schedules', 'configurations'], 'all initial values, all strictly increasing output time grids (symbolic times) up to the bounded length, all placements of checkpoints relative to them',
     'Tests use two fixed grids; the interval construction branches on how output times and checkpoints interleave.',
     [GEN], [('time interval construction', GEN + ': create_integration_time_intervals'), ('chunked integration', GEN + ': _integrate_checkpointed')], ['GenericIntegrator.integrate'])
prop('C12', 'Directly optimised layer parameters are looked up by time alone',
     'In the particle-free time-dependent mode the interval is divided into equally long pieces and the layer parameters used at a time are those of the piece containing it, the first piece before the start and the last one after the end. '
     'This depends only on the time asked for, never on the times asked for earlier, and every piece\'s parameters are registered for optimisation.',
     ['inputs', 'histories', 'configurations'], 'all times and all sequences of earlier queries up to the bounded length; number of pieces and integration length within the bounds',
     'The lookup keeps a cursor between calls; tests query in increasing order only, adaptive and adjoint solvers do not.',
     [BLK, INT], [('cached piecewise-constant lookup', BLK + ': ParticleFreeParameterFunc.get_parameters_at_time')], ['integrand derivatives in particle-free mode'])
prop('C13', 'Parameter-free layers compute what their torch counterparts compute',
     'Linear, dampened linear, 2d convolution and group normalisation layers compute, from the parameters stored in them, exactly what the corresponding torch layer would with those parameters, with or without bias or affine parameters and for every padding mode, stride, dilation and grouping. '
     'They expose no trainable parameters of their own, start from the torch initialisation, and follow type conversions.',
     ['inputs', 'configurations'], 'all inputs and parameter values; layer options and sizes within the bounds',
     'Tests use the default options on one random input.',
     [OVR], [('layer forward functions', OVR)], ['forward', 'get_parameter_dict'])
prop('C14', 'Initialisers create what was asked for',
     'Initial particles and costates are trainable tensors of the requested size filled with zeros, the requested constant, or noise scaled by the requested magnitude, around the sample batch where one is used; zero takes precedence over random and asking for both zero and a constant is refused. '
     'Every model creates all of its states with the sizes its equations need, and a costate for each state.',
     ['inputs', 'configurations'], 'all noise draws, constants, magnitudes and sample batches (symbolic), sizes within the bounds, every model',
     'Random draws hide a wrong scale or a missing offset, and tests only look at shapes.',
     [INI, INT, MOD], [('initialisers', INI), ('per-model states', MOD + ': create_initial_state_parameters')], ['create_parameters*', 'block parameters'])
prop('C15', 'A block returns the transported data, at the final or at all requested times',
     'A block starts from its particles, costates and the given data and returns what the solver computed: at the final time, or at every requested time with time as leading axis. '
     'The returned tensor is the model\'s output state of the transported data and the returned dictionaries hold the same trajectory. '
     'Hidden data states start at zero (in the symmetrised model at copies of the input) unless they are optimised, in which case they start at the shared values or at the linear or network prediction from the input.',
     ['inputs', 'configurations', 'histories'], 'all inputs, particle values and solver trajectories (arbitrary symbolic ones); every model and initial-condition option, any order of time settings, moving and converting the block',
     'Tests look at shapes and loss values of a few models with fixed solvers.',
     [BLK, MOD, INT], [('forward of the block', BLK), ('initial data conditions', MOD + ': get_initial_data_dict_from_data_tensor'), ('output selection', MOD + ': disassemble')], ['ShootingBlockBase.forward'])
prop('C16', 'RNN mode freezes the layer parameters for one integration',
     'In RNN mode the layer parameters computed at the first evaluation of an integration drive every later evaluation of that integration, whatever the particles do, and the next integration computes its own from its own start. '
     'With directly optimised parameters those are used throughout, and costates follow the equations for fixed parameters.',
     ['inputs', 'histories'], 'all particles, costates, data and times over sequences of evaluations and integrations up to the bounded length; automatic and hand-derived equations',
     'Needs a sequence of evaluations with different particles, which tests do not drive; stale parameters look plausible.',
     [INT, BLK], [('cached parameters and reset', INT + ': compute_gradients_autodiff, compute_reduced_lagrangian, reset')], ['compute_gradients', 'ShootingBlockBase.forward'])
prop('C17', 'Hooks observe the true quantities and change nothing',
     'A registered hook is called once per derivative evaluation, in registration order, with the time, states, costates, data, their derivatives, the layer parameters and the user\'s data of that evaluation, until it is removed. '
     'With or without hooks the derivatives are the same. The supplied recording hook appends exactly those values, the parameter energy and the parameter norms.',
     ['inputs', 'histories'], 'all particles, costates, data and times; sequences of registrations, removals and evaluations within the bounds',
     'Tests do not exercise hooks.',
     [INT, HOOK], [('hook dispatch', INT + ': compute_gradients'), ('recording hook', HOOK)], ['register_lagrangian_gradient_hook', 'parameter_evolution_hook'])
prop('C18', 'The learning rate is reduced exactly when progress stalls',
     'The learning rate of every parameter group is multiplied by the factor, but not below its minimum, exactly after more than the allowed number of consecutive steps without an improvement beyond the threshold over the best value so far, not counting steps in the cool-down, and then the search for a best value starts anew. '
     'Convergence is reported exactly once a due reduction could no longer change the rate of some group by more than the minimal decay. Saving and restoring the scheduler continues identically, and invalid settings are refused.',
     ['inputs', 'histories', 'configurations'], 'all metric sequences up to the bounded length, learning rates, thresholds, factors and minima (symbolic); patience, cool-down and modes within the bounds',
     'No test imports the scheduler; behaviour depends on the whole metric history.',
     [LRS], [('step', LRS + ': step, _reduce_lr')], ['step', 'has_convergence_been_reached', 'optimizer.param_groups'])
prop('C19', 'A sweep visits every combination once and passes it on unchanged',
     'Sweeping over settings yields every combination of the listed values exactly once, in the order of the lists with the last setting varying fastest, independently of earlier sweeps and leaving its inputs unchanged. '
     'Each combination is merged over the template (true flags become bare options, false ones are left out), turned into command line arguments, and run once per seed, by the requested interpreter and on the requested GPU, with its own output directory, unless results already exist there and recomputation was not asked for. Sweeps for another model or function use other directories. '
     'Configuration strings are joined with escaped separators.',
     ['inputs', 'configurations', 'histories'], 'all values (symbolic), numbers of settings and values, seeds and existing results within the bounds, repeated sweeps',
     'No test covers the sweep tools; errors show only for particular shapes of sweeps or when sweeping twice.',
     [CLI, EXP], [('sweep', CLI + ': recursively_sweep_parameters'), ('merging and running', EXP + ': merge_args, sweep_parameters')], ['recursively_sweep_parameters', 'merge_args', 'sweep_parameters'])
prop('C20', 'Complexity measures integrate the logarithmic parameter norms over time',
     'Each complexity measure is the sum over consecutive recorded times of the time step times the base-two logarithm of the mean of the two recorded squared norms, taken from the norm of that name. '
     'Steps back in time (a restarted integration) contribute nothing, and the recorded data is left unchanged.',
     ['inputs'], 'all recorded times and positive norms up to the bounded length, including times that jump back',
     'No test covers the measures.',
     [VAL], [('measures', VAL)], ['compute_complexity_measures'])
prop('C21', 'Freezing touches exactly the named parameters; counts are exact',
     'Freezing or unfreezing a list of parameters changes whether they are trainable for exactly those parameters and changes no value. '
     'The parameter counts report, for any mixture of frozen and trainable parameters, the number of entries of each kind and their sum.',
     ['configurations', 'histories'], 'all subsets and sequences of freezing and unfreezing within the bounds, every model',
     'No test covers freezing.',
     [UTL, BLK], [('freezing', UTL + ': _freeze_or_unfreeze_parameters'), ('counting', UTL + ': compute_number_of_parameters')], ['freeze_parameters', 'unfreeze_parameters', 'compute_number_of_parameters'])
prop('C22', 'Transposed-state mode equals transposing around the derivative',
     'With transposed states, the derivative handed to the solver is that of the same model applied to the states, costates and data (samples x rows x columns) with rows and columns exchanged, exchanged back, in the layout of the input.',
     ['inputs', 'configurations'], 'all state, costate and data values; every vector model, sizes with different and equal dimensions within the bounds',
     'The mode is not covered by tests; with equal dimensions a missing transposition does not change shapes.',
     [INT], [('transposition around the derivative', INT + ': forward, transpose_state')], ['forward of the integrand'])
prop('C23', 'States kept at zero start at zero and are not optimised',
     'When a block is told to keep its initial states at zero, every integration starts its own particles, including the border added to received ones, at zero, none of these is registered for optimisation, and no earlier integration or optimisation step changes that. '
     'Its costates remain trainable, and without the option both states and costates are trainable.',
     ['inputs', 'configurations', 'histories'], 'all models, initialisers and received values, any number of integrations',
     'Tests never enable the option.',
     [BLK, INI], [('registration', BLK + ': register_state_and_costate_parameters, register_pass_through_state_and_costate_enlargement_parameters')], ['ShootingBlockBase.forward', 'named_parameters'])
prop('C24', 'The residual network composes its layers in order',
     'The image network applies its input layer, then every shooting block of every layer in order, each continuing from what the one before returned, strides between layers, and classifies the pooled output of the last block. '
     'Every block integrates the equations of the requested model with the requested nonlinearity and model options. Every layer has the requested number of channels, and all blocks of one layer after the first add no parameters.',
     ['inputs', 'configurations'], 'all images, network and particle values and solver trajectories; numbers of layers and blocks within the bounds',
     'No test covers the network.',
     [RES, BLK, STR], [('composition', RES + ': forward')], ['BasicResNet.forward'])

TECH = 'solver-based: symbolic execution of the real code (torch dispatch / Python operators over SMT terms), obligations decided by z3, counterexamples replayed'


def main():
    built = sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, 'checks')) if f[0] == 'c' and f[1:3].isdigit())
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
    checks, na = [], []
    for p in P:
        i = p['id']
        if i in built:
            checks.append(dict(property=i, quick_cmd='bash check.sh {} quick'.format(i), thorough_cmd='bash check.sh {} thorough'.format(i), technique=TECH, level='other',
                               level_note='every obligation is decided by the solver for all values within the sizes, lengths and histories listed per case in the evidence; '
                                          'real arithmetic instead of floating point. ' + p['_note']))
        else:
            na.append(dict(property=i, reason='check not built yet'))
    json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
                   notes='One engine (symtorch), one harness module per property (checks/). KNOWN_FINDINGS.txt lists repaired defects and known findings.'),
              open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'claimed', len(na), 'open')


main()

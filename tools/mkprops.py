#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run after editing)."""
import json, os
P = []
M, I = 'src/xrtm_model.c', 'src/xrtm_interface.c'
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files,
        state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
        mechanism=[dict(name=a, where=b) for a, b in mech],
        observe_at=list(observe), hook_needed=hook)))
OBS = ['the public C functions of src/xrtm_interface.h: return values, output arrays, getters, stderr']

p('P01', 'Answers depend only on the current inputs, never on the call history',
  'After any sequence of successful input settings, rejected calls, queries, solves and cache resets, a solve or query on a model instance returns what a freshly created instance of the same configuration returns when given the same final inputs. Which solves ran before, in which order inputs were set, and how often they were changed must not show in any radiance, mean radiance, flux or derivative.',
  ['histories', 'configurations', 'inputs'],
  'Every history of calls on one instance, for every configuration, solver and final input set.',
  'The tests set every input once and solve once per instance; nothing is ever changed and solved again, so no internal cache is ever reused after an input changed.',
  [I, M], [('dependency flags: each setter marks what it invalidates', I + ': set_deps, init_deps'), ('each cached quantity re-evaluates when its flags are up', M + ': *_deps, *_update, *_get'), ('latches cleared by setters', I + ': update_n_four2, mu_0_singularity_adjust')],
  [('dep_flags_*', 'which inputs changed since a cached quantity was computed', 'src/xrtm.h'), ('inputs_initialized', 'all-inputs-set latch', 'src/xrtm.h')], OBS)
p('P02', 'Memory-for-speed options never change an answer',
  'Switching on any combination of the options that save intermediate results or reuse layer stacks, or dropping what was saved at any moment, gives the same answers as the configuration without them, in the first solve and in every later solve after inputs were changed. This holds for each solver of an instance, also when several solvers are used in turn on one instance.',
  ['configurations', 'histories', 'inputs'],
  'Every legal set of SAVE_* / stack reuse options, every later history of changes and solves, every solver.',
  'No test enables more than one of these options and none solves twice with one of them on.',
  [M, I, 'src/xrtm_stacks.c', 'src/xrtm_save_tree.c'], [('cached phase matrices, local/layer/total R and T', M + ': phase_mats_get, get_local_r_t_u_w, get_layer_R_T_S_U_W_V, get_total_*'), ('stack chain', M + ': build_layer_stacks'), ('clear_saved', I + ': xrtm_clear_saved')],
  [('dep_flags_layer_R_T_S, dep_flags_total_R_T_S', 'validity of saved matrices', 'src/xrtm.h')], OBS)
p('P03', 'Getters return what was last successfully set, and only that changed',
  'Each getter returns exactly the value of the last successful set of that input, however it was set: element by element, for all layers, for all derivatives or for all of both. A set changes nothing that is reported for any other input, layer, derivative, element or coefficient, and a solve or query changes none of them.',
  ['histories', 'inputs', 'configurations'],
  'Every sequence of setter calls in every form, every dimension, and every getter afterwards.',
  'The tests never call a getter of an input.',
  [I], [('setters and getters', I + ': xrtm_set_*, xrtm_get_*')], [], OBS)
p('P04', 'A rejected call changes nothing',
  'A call that reports an error leaves every observable input as it was, and every later answer of the instance is what it would have been if the call had not been made.',
  ['histories', 'inputs'],
  'Every rejected call (bad value, bad index, wrong mode, a bad element in the middle of an array) at every point of every history.',
  'The tests make no call that is rejected.',
  [I], [('validate before storing', I + ': xrtm_set_*')], [], OBS)
p('P05', 'Inputs are accepted exactly when in range, in the right mode',
  'A set succeeds exactly when the instance was created for that input (its option, derivative mode or kernel is on), every index is in range and every value is in its documented range; otherwise the call returns the error value and prints a message. The ends of each range are treated as documented, for scalar forms and for every position of array forms.',
  ['inputs', 'configurations'],
  'Every setter, every mode, every index, values on, just inside and just outside each bound, bad element at each position.',
  'The tests use only legal values.',
  [I], [('range checks', I + ': xrtm_set_*'), ('mode checks', 'src/xrtm_interface.c macros CHECK_INIT_FOR_DERIVS, GET_INOUT...')], [], OBS)
p('P06', 'Creation accepts exactly the legal configurations and fills in defaults',
  'Creating an instance succeeds exactly when options, counts, kernels and solvers are legal alone and in combination, as documented; otherwise it reports an error and leaves no instance. A created instance reports the requested options completed with the documented implied and default options, and the stand-alone checks of options, counts and solvers agree with creation.',
  ['configurations'],
  'Every set of options, every solver set, every combination of counts.',
  'The tests create a handful of configurations, all legal.',
  [I], [('xrtm_check_options, xrtm_check_counts, xrtm_check_solvers', I), ('defaults', I + ': xrtm_create_misc')], [], OBS)
p('P07', 'A solve runs exactly when everything it needs was set',
  'A solve succeeds exactly when every input the configuration requires was set at least once, the varied-layer update was made when derivatives are on, and the requested solver, quantities and azimuths are legal; otherwise it reports an error that names the cause, and the instance can be completed and solved afterwards. A solve that succeeds writes every output that was asked for, as a finite number.',
  ['histories', 'configurations'],
  'Every subset of inputs left unset, in every configuration, and every order in which they are supplied.',
  'The tests set all inputs before solving.',
  [I], [('initialised-flags and the latch', I + ': check_inputs_initialized, solution_preprocess')], [('set_flags_*, initial_inputs', 'which inputs were set', 'src/xrtm.h')], OBS)
p('P08', 'Instances do not influence each other',
  'Calls on one instance never change the inputs or answers of another, for any interleaving of calls on any number of instances in one thread, and for calls on different instances made at the same time from different threads. Destroying one instance leaves the others usable.',
  ['schedules', 'histories', 'configurations'],
  'Every interleaving of the histories of several instances; every thread schedule.',
  'The tests use one instance per process and one thread.',
  [I, M, 'src/xrtm_work.c', 'src/xrtm_pade_rts.c'], [('all state hangs off the instance', I), ('work arrays', 'src/xrtm_work.c')], [], OBS)
p('P09', 'Every resource taken is given back, and no call reads or writes out of bounds',
  'Creating, using and destroying an instance returns all the memory it took, for every configuration and history, including creations and solves that fail; memory in use does not grow with the number of repeated sets, solves and cache resets. No legal or rejected call reads uninitialised memory or touches memory outside what the instance or the caller owns.',
  ['histories', 'configurations', 'inputs'],
  'Every configuration and every history of calls from creation to destruction.',
  'The tests look at printed results only; a leak or a stray read does not change them.',
  [I, M, 'src/xrtm_work.c', 'src/xrtm_stacks.c', 'src/xrtm_save_tree.c'], [('paired allocation and release', I + ': xrtm_create_misc, xrtm_destroy'), ('work array pools', 'src/xrtm_work.c')], [], OBS)
p('P10', 'What is asked for does not change what is answered',
  'The answer at one output level, optical depth, angle, azimuth, Stokes position or direction is the same whatever else is requested with it: more or fewer levels, angles or azimuths, other quantities in the same call, both directions or one, through the combined call or through the call for one quantity.',
  ['inputs', 'configurations'],
  'Every request and every sub-request of it, for every solver.',
  'Each test makes one request per configuration and compares it with stored numbers.',
  [M, I, 'src/xrtm_sfi.c', 'src/xrtm_sfi_x.c'], [('loops over requested levels, angles, azimuths', M + ': get_solution_internal, fourier_get_*'), ('wrappers', I + ': xrtm_radiance, xrtm_mean_radiance, xrtm_flux')], [], OBS)
p('P11', 'All solvers agree on the same problem',
  'For one set of inputs, every solver that supports the configuration and is not an approximation by design returns the same radiances, mean radiances, fluxes and derivatives, to within the accuracy of its own control parameters. The two, four and six stream solvers equal the general solvers run with one, two and three quadrature points, and the single scattering solver is the small-thickness limit of the others.',
  ['inputs', 'configurations'],
  'Every input set and configuration that two solvers share.',
  'The tests print results of one or two solvers for a few fixed inputs.',
  [M, 'src/xrtm_eig_bvp.c', 'src/xrtm_eig_rts.c', 'src/xrtm_pade_rts.c', 'src/xrtm_doub_rts.c', 'src/xrtm_mem_bvp.c', 'src/xrtm_sos.c', 'src/xrtm_two_stream.c', 'src/xrtm_four_stream.c', 'src/xrtm_six_stream.c', 'src/xrtm_two_os.c', 'src/xrtm_single.c', 'src/xrtm_adding.c', 'src/xrtm_doubling.c'], [('dispatch to solvers', M + ': get_fourier')], [], OBS)
p('P12', 'Derivatives are the derivatives of the answers',
  'Each derivative returned with a radiance is the derivative of that radiance with respect to the varied inputs: it equals the limit of the change in the answer when the inputs are moved along the given input derivatives. This holds for every solver, output position, option and kind of input (layer properties, sources, surface).',
  ['inputs', 'configurations'],
  'Every input point, every direction of variation, every solver and option set.',
  'Tests compare derivatives of a fixed case with stored numbers for a few inputs.',
  [M, I, 'src/xrtm_model.c', 'src/xrtm_source.c', 'src/xrtm_adding.c', 'src/xrtm_stacks.c'], [('linearised code next to each formula', 'src/*.c: the _l arrays'), ('which derivative patterns are zero', I + ': build_derivs_*')], [], OBS)
p('P13', 'Each derivative stands alone and is linear in its seeds',
  'A derivative column depends on its own input derivatives only: other columns, their number, their order and their zeros do not change it. It is linear in its input derivatives, it is zero when they are all zero, and computing derivatives at all does not change the radiances.',
  ['configurations', 'inputs', 'histories'],
  'Every pattern of which layers, sources and surface parameters vary in which column, and every history of changing that pattern.',
  'Tests use one pattern per program and do not compare columns with each other.',
  [I, M, 'src/xrtm_adding.c', 'src/xrtm_derivs.h'], [('derivative pattern arrays', I + ': build_derivs_*, xrtm_update_varied_layers')], [('derivs', 'pattern per layer and per stack', 'src/xrtm.h')], OBS)
p('P14', 'Answers are linear in the sources',
  'Scaling the solar beam, thermal sources and isotropic boundary illumination together scales every radiance, mean radiance, flux and derivative by the same factor, and the answer for several sources at once is the sum of the answers for each alone. No source gives a zero answer.',
  ['inputs', 'configurations'],
  'Every split of every source set, all solvers and options that allow them.',
  'Tests have one fixed source strength.',
  [M, 'src/xrtm_source.c'], [('source vectors and boundary input', 'src/xrtm_source.c; ' + M + ': diff_bound_input_update')], [], OBS)
p('P15', 'The way a medium is cut into layers does not matter',
  'Cutting a uniform layer in two, or joining identical neighbours, changes no answer at the remaining positions. Output at an optical depth that lies on a layer boundary equals output at that boundary, and output inside a layer equals output at a boundary made by cutting there.',
  ['inputs', 'configurations'],
  'Every cut of every medium, every solver that supports the output positions.',
  'No test solves one medium in two layerings.',
  [M, 'src/xrtm_source.c', 'src/xrtm_adding.c', 'src/xrtm_radiance.c'], [('utaus', M + ': update_utaus'), ('layer loops', M)], [], OBS)
p('P16', 'Surface kernels combine linearly and in any order',
  'The order in which surface kernels are given does not matter, a kernel of amplitude zero changes nothing, and two kernels of the same kind and parameters equal one with the summed amplitude. The same holds for their derivatives.',
  ['inputs', 'configurations'],
  'Every list of kernels with parameters, every permutation and every split of amplitudes.',
  'Tests use one fixed kernel list.',
  [M, 'src/xrtm_brdf.c', 'src/xrtm_brdf_a.c'], [('kernel sum', M + ': brdf_vecs_get, brdf_mats_get'), ('kernels', 'src/xrtm_brdf.c')], [], OBS)
p('P17', 'Azimuth symmetries of the radiance field',
  'Radiance depends on azimuth only through the difference from the solar azimuth, repeats every 360 degrees, and under mirroring about the solar plane the first two Stokes components stay and the last two change sign. With no azimuth dependence in the problem the answer is the same at every azimuth.',
  ['inputs', 'configurations'],
  'Every azimuth, solar azimuth, surface and solver.',
  'Tests evaluate a few azimuths on one side of the solar plane.',
  [M], [('Fourier sum', M + ': get_solution_internal, azimuth_modes')], [], OBS)
p('P18', 'Problems embedded in larger ones give the same answer',
  'Zero coefficients added to a phase function, a larger coefficient limit, unused kernel quadrature, more Stokes parameters than the problem needs, and unused solvers or derivatives in the instance leave the common part of the answer unchanged.',
  ['configurations', 'inputs'],
  'Every problem and every larger configuration that contains it.',
  'Each test has one set of dimensions.',
  [M, I, 'src/xrtm_scatter.c'], [('coefficient and Stokes loops', 'src/xrtm_scatter.c; ' + M + ': phase_mats_get')], [], OBS)
p('P19', 'Energy is conserved and radiance is never created',
  'In a medium that only scatters, the net flux is the same at every level and what a lossless surface receives it returns; absorption only removes energy. Radiances and fluxes of a physical problem are not negative, and with a purely absorbing medium the beam and the emitted radiance follow the exponential law.',
  ['inputs', 'configurations'],
  'Every non-absorbing and every purely absorbing medium, all solvers and levels.',
  'Tests compare printed numbers of a few absorbing cases.',
  [M, 'src/xrtm_source.c', 'src/xrtm_brdf.c'], [('fluxes', M + ': get_solution_internal')], [], OBS)
p('P20', 'Names and values of options, solvers and kernels correspond one to one',
  'For options, solvers, outputs, kernels, difference methods and eigen solvers, translating a name to its value and back gives the name, every value has one name and one index, masks translate to the list of their names and back, and unknown names or values give the error value. A list that does not fit is cut, never written past its end.',
  ['inputs'],
  'Every name, value, index and mask.',
  'Tests translate only the names used in one command line and one file.',
  [I, 'misc/gindex_name_value.c', 'src/xrtm_support.c'], [('tables', I), ('lookup', 'misc/gindex_name_value.c')], [], OBS)
p('P21', 'The command line and input file mean what the interface calls mean',
  'Running the command line program on an input file or on equivalent arguments gives the same answers as making the corresponding interface calls, and a bad file or argument gives an error message and a failure status rather than wrong answers.',
  ['inputs', 'programs'],
  'Every input file of the grammar.',
  'Tests run one file.',
  ['utils/callxrtm.c', 'utils/input_util.c', 'utils/input_yylex.l'], [('scanner and parser', 'utils/')], [], ['callxrtm exit status and output'])
p('P22', 'Every language binding does what the C interface does',
  'A sequence of calls made through the C++, Fortran 77, Fortran 90 or Python interface gives the same results, outputs and errors as the same calls through the C interface, with array arguments meaning the same elements.',
  ['programs', 'inputs'],
  'Every function of each binding with every array shape.',
  'Tests run one example program per language.',
  ['interfaces/xrtm_int_cpp.cpp', 'interfaces/xrtm_int_f77.f', 'interfaces/xrtm_int_f77_util.c', 'interfaces/xrtm_int_f90.f90', 'interfaces/xrtm_int_f90_util.c', 'interfaces/xrtm_int_py.c'], [('wrappers', 'interfaces/')], [], ['the public functions of each binding'])
p('P23', 'The finite difference model returns difference quotients of the solution',
  'With perturbations p_j and steps delta_j set, a call of the finite difference interface gives the radiances I(x) of the unperturbed inputs and, for each column j, (I(x+p_j)-I(x))/delta_j (forward), (I(x)-I(x-p_j))/delta_j (backward) or (I(x+p_j)-I(x-p_j))/delta_j (central), where every perturbed input moves: illumination, emission, phase function, albedo, optical thickness, surface. Afterwards the inputs are the ones that were set, so that repeated calls and other columns do not affect an answer. Its setters, in every shape, set exactly the elements named, and its getters return them.',
  ['inputs', 'histories'],
  'Every input set, perturbation and method.',
  'No test uses it with more than one setting.',
  ['src/xrtm_fd_interface.c'], [('perturb, solve, difference', 'src/xrtm_fd_interface.c')], [], ['public functions of src/xrtm_fd_interface.h'])
p('P24', 'Delta scaling solves the scaled medium; TMS puts single scattering back',
  "With delta_m the answer is that of the medium in which each layer's forward peak f (the last coefficient kept, divided by its 2l+1) is taken out: optical thickness (1 - omega f) tau, albedo omega (1-f)/(1 - omega f), coefficients (chi_l - (2l+1) f)/(1-f), for values and analytic derivatives, with optical depths of output moving with the layers. With n_t_tms on top of it, the radiance differs from that by the single scattering of the whole phase function in the scaled medium minus that of the truncated one; mean radiance and flux do not change.",
  ['inputs', 'configurations'],
  'Every problem, derivative column and solver that accept the options.',
  'The reference results of the tests contain delta_m cases only as numbers of one atmosphere.',
  ['src/xrtm_model.c', 'src/xrtm_scatter.c', 'src/xrtm_single.c'], [('scaling of coefficients, albedo, thickness and depths', 'src/xrtm_model.c'), ('single scattering correction', 'src/xrtm_single.c')], [], ['README / doc: options delta_m, n_t_tms'])
p('P25', 'Exchanging the directions of the sun and of the view is reciprocal',
  'For a plane-parallel atmosphere over a reciprocal surface, lit by the sun alone, the first Stokes component of the radiance that leaves the top along a direction, divided by the cosine of the solar zenith angle, is unchanged when the directions of sun and view are exchanged; the same holds for light transmitted through the atmosphere alone, with the layers upside down. It holds for the derivatives too.',
  ['inputs', 'configurations'],
  'Every problem, with solar source, solver, surface of reciprocal kernels, derivative mode.',
  'No test exchanges directions.',
  ['src/xrtm_model.c', 'src/xrtm_eig_bvp.c', 'src/xrtm_adding.c', 'src/xrtm_brdf.c'], [('solvers', 'src/xrtm_model.c'), ('kernels', 'src/xrtm_brdf.c')], [], [])
p('P26', 'Turning the atmosphere over exchanges up and down; one temperature is in balance',
  'Without a sun and a surface an atmosphere turned upside down (layers, illuminations, Planck functions, output positions) gives the same radiances, mean radiances, fluxes and derivatives with up and down exchanged. Where everything (layers, surface, illumination of both sides) radiates as one black body of radiance B, or nothing absorbs and both sides are lit with B, the radiance is B in every direction at every position, mean radiance B and flux pi B.',
  ['inputs', 'configurations'],
  'Every problem of isotropic and thermal sources, every solver of multiple scattering.',
  'No test has a problem without a sun.',
  ['src/xrtm_model.c', 'src/xrtm_source.c', 'src/xrtm_adding.c', 'src/xrtm_eig_bvp.c'], [('thermal and isotropic sources', 'src/xrtm_source.c')], [], [])
p('P27', 'Options that choose a way of calculation do not choose the answer',
  "Where the library offers two ways to the same quantity they agree: particular solutions by Green's functions or by substitution (part_sol_greens, part_sol_classical), user angles by source function integration or as extra quadrature angles (sfi), adding in one direction or in both (top_down_adding, bottom_up_adding) for the boundary they are defined for, and pseudo-spherical geometry on a planet so large that it is flat (psa) or none. Values and derivatives.",
  ['inputs', 'configurations'],
  'Every problem and solver that accepts both.',
  'Tests compare solvers, for one atmosphere, not the ways within a solver over all sources and surfaces.',
  ['src/xrtm_eig_bvp.c', 'src/xrtm_stacks.c', 'src/xrtm_model.c', 'src/xrtm_single.c', 'src/xrtm_two_os.c'], [('choice of ways', 'src/xrtm_model.c')], [], ['README / doc: options'])
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
assert all(len(x['title']) <= 80 for x in P)

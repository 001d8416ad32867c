#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HIST = 'TLC-generated call histories of the TLA+ instance specification replayed into the library; TLC judges the recorded trace'
C = {
 'P01': (HIST + '; after every solve a fresh instance given the same final inputs, and the same instance asked again, must answer the same', 'model_checking', 'Seeded random histories (all solvers, options, setter forms, resets, queries, rejected calls); answers compared to 1e-8 of each block, fourier tolerance included. Undefined uses (varied-layer pattern not updated) constrain nothing.'),
 'P02': (HIST + '; a twin instance without the options that save, and without resets, must answer the same', 'model_checking', 'Seeded random histories with save options on at high probability; twin answers compared to 1e-8. stack_reuse_adding is a recorded finding under P09.'),
 'P09': (HIST + ', with readings of the memory in use judged by TLC (nothing without instances, no growth over repeated rounds), and replayed a second time with address checks and other contents of fresh memory: both must answer the same', 'model_checking', 'Leaks by allocator accounting; out-of-bounds by AddressSanitizer + -fsanitize=bounds on the replayed behaviours; uninitialised reads by two fill patterns of heap and automatic variables.'),
 'P03': (HIST, 'model_checking', 'Every getter compared with the specification after every call of seeded random behaviours (all setters, forms, derivative modes, kernels); not exhaustive. Trusts the driver and the decoding of values.'),
 'P04': (HIST + ' (snapshots after rejected calls; a twin instance without the rejected calls)', 'model_checking', 'Seeded random behaviours with about half of the setter calls on or beyond an edge; twin answers compared to 1e-8.'),
 'P05': (HIST + ' (arguments on, just inside and outside every bound)', 'model_checking', 'The acceptance rule of every setter is explicit in XrtmInst!Accepts; edges sampled for every argument position by seed.'),
 'P06': ('creation decision table in TLA+ enumerated by TLC (option pairs, solver sets, count edges, random), each request created and judged by TLC', 'model_checking', 'Exhaustive over the families F1-F3 of XrtmCfg, random beyond; the decision table was written from documentation and code.'),
 'P07': (HIST + ' (incomplete instances, bad requests, twins without failed calls)', 'model_checking', 'Readiness rule explicit in XrtmInst!SolveOK; seeded random order of completion.'),
 'P08': (HIST + ' (interleaved instances against the same calls made alone)', 'model_checking', 'Seeded interleavings of up to three instances in one thread, incl. destroy and re-create; and behaviours of separate instances run at once in four threads, plainly and under ThreadSanitizer (schedules are those of the machine).'),
 'P20': ('name tables in TLA+ (bijection theorems checked by TLC), every query enumerated and its recorded answer judged by TLC', 'model_checking', 'All indices, names, single and paired masks; random larger masks; unknown names and values.'),
}
REL = 'problems and the relations between their answers generated by TLC from XrtmEquiv (on the instance specification), each variant solved by the library, residuals of the relations judged by TLC (XrtmForms)'
RL = ' Random problems over all solvers, options, geometries, surfaces, derivative modes by seed; residuals relative to the largest value of the block, with a tolerance per solver.'
C.update({
 'P10': (REL, 'model_checking', 'Subsets and orders of output positions, angles, azimuths, quantities, directions; the series of azimuth modes, ended by tolerance in either way or not at all.' + RL),
 'P11': (REL, 'model_checking', 'Up to ten solvers on one problem, radiances, mean radiances, fluxes and derivatives; 1e-7 between the solvers that are exact for the quadrature (1e-3.5 for doubling, 1e-1.75 for successive orders, little for Pade parameters chosen by the solver). Single scattering and two_os against the others over thin layers, to first and second order.' + RL),
 'P12': (REL, 'model_checking', 'Analytic derivatives against fourth-order differences over all inputs a derivative column touches (steps about 3e-4 of the seed), scalar and vector, all linearized solvers; radiances only (derivatives of mean radiance and flux are never written by the library). Output at depths moves with its layer; planets of a few scale heights.' + RL),
 'P13': (REL, 'model_checking', 'Columns alone, reordered, doubled, zeroed, added; values with and without derivatives.' + RL),
 'P14': (REL, 'model_checking', 'Scaling, the sum over single sources, no sources.' + RL),
 'P15': (REL, 'model_checking', 'A layer cut in two, cuts of no effect, positions given as levels or as optical depths; a cut layer is compared to the accuracy of the solver.' + RL),
 'P16': (REL, 'model_checking', 'Permuted, split and added kernels of no amplitude.' + RL),
 'P17': (REL, 'model_checking', 'Turning sun and view together, full turns, mirror images with the signs of the Stokes components, zenith sun.' + RL),
 'P18': (REL, 'model_checking', 'Zero-padded coefficients, larger maxima, other solvers requested, unpolarized problems as vector problems (and Q=U=V=0), three and four components, dark sources against none, delta-M with nothing to scale.' + RL),
 'P19': (REL, 'model_checking', 'Lossless media (omega=1 is stored as 1-1e-5, hence 1e-3) and surfaces, absorbed power and fluxes not negative, closed forms of purely absorbing media for beam, illumination and emission.' + RL),
})
C['P23'] = (REL, 'model_checking', 'Perturbations set in every shape (also over others set before), getters compared, one or two calls with random methods; quotients of the solutions of the moved problems made independently, to 1e-8.' + RL)
C['P21'] = (REL, 'model_checking', 'Programs written from a specification of the input language (XrtmProgram): headers in random order, statements in every index form, values given in the call or by files, defaults left out, options as flags, from file, standard input or string, with perturbations of finite differences; the printed answers compared with the calls of the specification; programs with one mistake of 19 kinds must be refused with a message.' + RL)
C['P22'] = (REL, 'model_checking', 'The driver of the C interface, compiled so that each of its calls goes through C++, Fortran 77, Fortran 90 or an embedded Python, replays histories of every call (legal and illegal, every getter) judged by XrtmTrace, and must answer as the C driver does; difference quotients through the bindings of xrtm_fd. The count -1 (all coefficients) is a shape in C and C++ only. IDL and Julia cannot run here.' + RL)
C['P24'] = (REL, 'model_checking', 'The scaled medium is made from the specification of the scaling, given to an instance without the options; single scattering of part of the albedo recovers the correction for any other source. The scaling convention is the one of the library (P23 for moved inputs).' + RL)
C['P25'] = (REL, 'model_checking', 'Random directions of sun and view; kernels that are not reciprocal by their definition (direct_and_diffuse, user_defined, li_*) left out, azimuth quadrature of kernels high enough.' + RL)
C['P26'] = (REL, 'model_checking', 'Mirrored problems to the accuracy of sums; black body and lossless equilibrium to 1e-7 and 1e-3 (omega = 1 is stored as 1 - 1e-5).' + RL)
C['P27'] = (REL, 'model_checking', 'The second way is the same problem with one option exchanged; flat planets have a radius of 2e6 against layers of 0.1, hence 1e-4.' + RL)
NA = {}
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = dict(version=1, setup_cmd='python3 check.py --setup',
  hooks=dict(guard='none', enable='no hooks: the checks use the public interface and a copy of the tree built by vf/build.py', source_commits=[]),
  checks=[dict(property=p, quick_cmd='python3 check.py %s quick' % p, thorough_cmd='python3 check.py %s thorough' % p,
               evidence_file='evidence/%s.json' % p, technique=C[p][0], level=C[p][1], level_note=C[p][2]) for p in props if p in C],
  not_applicable=[dict(property=p, reason=NA.get(p, 'check under construction')) for p in props if p not in C])
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)

------------------------------ MODULE XrtmBase ------------------------------
(* The vocabulary of XRTM and its creation decision table.                  *)
(* A configuration (request) is the record                                  *)
(*  [opts: set of option names, solvers: set of solver names, max_coef, nq, *)
(*   ns, nd, nl, nth, kernels: sequence of kernel names, nkq, nlev, nu]     *)
(* All real values of the model are integers; the harness scales them.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

OptionNames == <<"calc_derivs", "reverse_derivs", "delta_m", "n_t_tms",
  "four_conv_old", "four_conv_new", "no_azimuthal", "output_at_levels",
  "output_at_taus", "part_sol_classical", "part_sol_greens", "phase_scalar",
  "phase_matrix_gc", "phase_matrix_lc", "psa", "quad_norm_gaus_leg",
  "quad_doub_gaus_leg", "quad_lobatto", "save_leg_polys", "save_phase_mats",
  "save_local_r_t", "save_layer_r_t_s", "save_total_r_t_s", "sfi",
  "source_solar", "source_thermal", "stack_reuse_adding", "top_down_adding",
  "bottom_up_adding", "upwelling_output", "downwelling_output", "vector">>
SolverNames == <<"doub_add", "eig_add", "eig_bvp", "four_stream", "mem_bvp",
  "pade_add", "single", "six_stream", "sos", "two_os", "two_stream">>
OutputNames == <<"radiance", "radiance_mean", "flux", "flux_divergence">>
KernelNames == <<"lambertian", "direct_and_diffuse", "roujean", "li_sparse",
  "li_dense", "ross_thin", "ross_thick", "hapke", "rahman", "cox_munk",
  "user_defined">>

Range(s) == {s[i] : i \in DOMAIN s}
Options == Range(OptionNames)
Solvers == Range(SolverNames)
Kernels == Range(KernelNames)

MaxKernelParams == 4
NParams(k) == CASE k = "direct_and_diffuse" -> 4
                [] k \in {"li_sparse", "li_dense", "cox_munk"} -> 2
                [] k \in {"hapke", "rahman"} -> 3
                [] k = "user_defined" -> MaxKernelParams
                [] OTHER -> 0

AddingSolvers == {"doub_add", "eig_add", "pade_add"}
FewStream     == {"two_stream", "four_stream", "six_stream"}
VectorSolvers == Solvers \ FewStream
DerivSolvers  == Solvers \ FewStream
SaveOptions   == {"save_leg_polys", "save_phase_mats", "save_local_r_t",
                  "save_layer_r_t_s", "save_total_r_t_s", "stack_reuse_adding"}

(* ---------------------------------------------------------------- *)
(* Option legality, as a list of named rules: each is TRUE when kept *)
AtMostOne(o, S) == Cardinality(o \cap S) <= 1
OptionRules(o) == <<
  <<"n_t_tms with no_azimuthal",  ~({"n_t_tms", "no_azimuthal"} \subseteq o)>>,
  <<"a convergence type",         o \cap {"four_conv_old", "four_conv_new"} # {}>>,
  <<"one convergence type",       AtMostOne(o, {"four_conv_old", "four_conv_new"})>>,
  <<"an output position type",    o \cap {"output_at_levels", "output_at_taus"} # {}>>,
  <<"one output position type",   AtMostOne(o, {"output_at_levels", "output_at_taus"})>>,
  <<"a particular solution",      o \cap {"part_sol_classical", "part_sol_greens"} # {}>>,
  <<"one particular solution",    AtMostOne(o, {"part_sol_classical", "part_sol_greens"})>>,
  <<"a phase type",               o \cap {"phase_scalar", "phase_matrix_gc", "phase_matrix_lc"} # {}>>,
  <<"one phase type",             AtMostOne(o, {"phase_scalar", "phase_matrix_gc", "phase_matrix_lc"})>>,
  <<"a quadrature",               o \cap {"quad_norm_gaus_leg", "quad_doub_gaus_leg", "quad_lobatto"} # {}>>,
  <<"one quadrature",             AtMostOne(o, {"quad_norm_gaus_leg", "quad_doub_gaus_leg", "quad_lobatto"})>>,
  <<"saved layers with stacks",   ~({"save_layer_r_t_s", "stack_reuse_adding"} \subseteq o)>>,
  <<"stacks need derivatives",    "stack_reuse_adding" \in o => "calc_derivs" \in o>>,
  <<"stacks with top down",       ~({"stack_reuse_adding", "top_down_adding"} \subseteq o)>>,
  <<"one adding direction",       AtMostOne(o, {"top_down_adding", "bottom_up_adding"})>>,
  <<"an output direction",        o \cap {"upwelling_output", "downwelling_output"} # {}>>,
  <<"phase matrix needs vector",  "vector" \notin o => o \cap {"phase_matrix_gc", "phase_matrix_lc"} = {}>>,
  <<"vector needs phase matrix",  "vector" \in o => o \cap {"phase_matrix_gc", "phase_matrix_lc"} # {}>> >>
OptionsLegal(o) == \A r \in Range(OptionRules(o)) : r[2]

CountRules(o, c) == <<
  <<"derivatives need the option", "calc_derivs" \notin o => c.nd = 0>>,
  <<"the option needs derivatives", "calc_derivs" \in o => c.nd # 0>>,
  <<"delta-m coefficients",        "delta_m" \in o => c.max_coef >= 2 * c.nq + 1>>,
  <<"sfi needs angles",            "sfi" \in o => c.nu # 0>>,
  <<"top down one level",          "top_down_adding" \in o => c.nlev = 1>>,
  <<"bottom up one level",         "bottom_up_adding" \in o => c.nlev = 1>>,
  <<"stokes need vector",          "vector" \notin o => c.ns <= 1>> >>
CountsLegal(o, c) == \A r \in Range(CountRules(o, c)) : r[2]

(* The solvers that each circumstance excludes *)
Excluded(o, c) ==
  UNION {
    IF c.nq # 1 THEN {"two_stream"} ELSE {},
    IF c.nq # 2 THEN {"four_stream"} ELSE {},
    IF c.nq # 3 THEN {"six_stream"} ELSE {},
    IF c.nth # 1 THEN Solvers \ {"doub_add"} ELSE {},
    IF c.nlev > 2 THEN AddingSolvers \cup {"sos", "two_os"} ELSE {},
    IF c.nu > 0 /\ "sfi" \notin o THEN FewStream ELSE {},
    IF "delta_m" \in o /\ "n_t_tms" \notin o THEN {"single"} ELSE {},
    IF "n_t_tms" \in o THEN {"two_os"} ELSE {},
    IF "no_azimuthal" \in o THEN {"single"} ELSE {},
    IF "output_at_taus" \in o THEN AddingSolvers \cup {"sos"} ELSE {},
    IF "quad_lobatto" \in o THEN Solvers ELSE {},
    IF "sfi" \in o THEN AddingSolvers \cup {"mem_bvp", "sos"} ELSE {},
    IF "source_solar" \notin o THEN {"mem_bvp", "single", "sos", "two_os"} ELSE {},
    IF "source_thermal" \in o THEN FewStream \cup {"mem_bvp", "single", "sos", "two_os"} ELSE {},
    IF o \cap {"stack_reuse_adding", "top_down_adding", "bottom_up_adding"} # {}
      THEN {"eig_bvp", "mem_bvp", "single", "sos", "two_os"} ELSE {} }
SolversLegal(o, c) == c.solvers \cap Excluded(o, c) = {}

(* Counts that are checked before anything else at creation *)
BasicCounts(c) ==
  /\ c.max_coef >= 0 /\ c.nq > 0 /\ c.ns >= 1 /\ c.ns <= 4 /\ c.nd >= 0 /\ c.nl > 0
  /\ c.nth > 0 /\ (Len(c.kernels) > 0 => c.nkq > 0)
  /\ \A k \in Range(c.kernels) : k \in Kernels
  /\ c.nlev > 0 /\ c.nu >= 0

(* Implied and default options *)
Default(o, group, dflt) == IF o \cap group = {} THEN o \cup dflt ELSE o
Resolve(o0, ns) ==
  LET o1 == IF ns > 1 THEN o0 \cup {"vector"} ELSE o0
      o2 == IF "n_t_tms" \in o1 THEN o1 \cup {"delta_m"} ELSE o1
      o3 == Default(o2, {"four_conv_old", "four_conv_new"}, {"four_conv_new"})
      o4 == Default(o3, {"part_sol_classical", "part_sol_greens"}, {"part_sol_classical"})
      o5 == Default(o4, {"phase_scalar", "phase_matrix_gc", "phase_matrix_lc"},
                    IF "vector" \in o4 THEN {"phase_matrix_gc"} ELSE {"phase_scalar"})
      o6 == Default(o5, {"quad_norm_gaus_leg", "quad_doub_gaus_leg", "quad_lobatto"}, {"quad_doub_gaus_leg"})
  IN Default(o6, {"upwelling_output", "downwelling_output"}, {"upwelling_output", "downwelling_output"})

ResolvedOf(c) == Resolve(c.opts, c.ns)
CreateLegal(c) ==
  /\ BasicCounts(c)
  /\ OptionsLegal(ResolvedOf(c)) /\ CountsLegal(ResolvedOf(c), c) /\ SolversLegal(ResolvedOf(c), c)

(* What a created instance reports.  phase_matrix_lc is completed after the
   checks: it implies that phase matrices are saved *)
Completed(c) == ResolvedOf(c) \cup (IF "phase_matrix_lc" \in ResolvedOf(c) THEN {"save_phase_mats"} ELSE {})
(* A resolved configuration: what the rest of the specification works with *)
Created(c) == [c EXCEPT !.opts = Completed(c)]
NElem(c) == IF c.ns > 1 THEN 6 ELSE 1
NMu(c)   == IF c.nu > 0 THEN c.nu ELSE c.nq
=============================================================================

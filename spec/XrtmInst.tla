------------------------------ MODULE XrtmInst ------------------------------
(* One model instance as seen through its public interface: the inputs that *)
(* were set, which calls are accepted and what they change, what a getter   *)
(* reports and when a solve may run.                                        *)
(*                                                                          *)
(* An input that was never set is <<>>, one that was set is <<value>>.      *)
(* Phase function coefficients are handles [id, n]: n coefficients of the   *)
(* phase function id.  A linearised coefficient array is, per coefficient   *)
(* index, the handle that last covered the index (0 = still zero).          *)
EXTENDS XrtmBase

NoInput == <<>>
Ones(n, v) == [i \in 1..n |-> v]

NewInput(c) ==
  [doub_d_tau |-> <<>>, pade |-> <<>>, sos |-> <<>>, fourier_tol |-> <<>>, lambda |-> <<>>,
   planet_r |-> <<>>, levels_z |-> <<>>, out_levels |-> <<>>, out_taus |-> <<>>, out_thetas |-> <<>>,
   F_iso_top |-> <<>>, F_iso_bot |-> <<>>, F_0 |-> <<>>, theta_0 |-> <<>>, phi_0 |-> <<>>,
   levels_b |-> <<>>, surface_b |-> <<>>,
   coef |-> Ones(c.nl, <<>>), omega |-> Ones(c.nl, <<>>), ltau |-> Ones(c.nl, <<>>),
   kamp |-> Ones(Len(c.kernels), <<>>),
   kpar |-> [k \in 1..Len(c.kernels) |-> Ones(NParams(c.kernels[k]), <<>>)],
   kfun |-> Ones(Len(c.kernels), <<>>),
   F_iso_top_l |-> Ones(c.nd, 0), F_iso_bot_l |-> Ones(c.nd, 0),
   levels_b_l |-> Ones(c.nd, Ones(c.nl + 1, 0)), surface_b_l |-> Ones(c.nd, 0),
   coef_l |-> Ones(c.nl, Ones(c.nd, Ones(c.max_coef, 0))),
   omega_l |-> Ones(c.nl, Ones(c.nd, 0)), ltau_l |-> Ones(c.nl, Ones(c.nd, 0)),
   kamp_l |-> Ones(Len(c.kernels), Ones(c.nd, 0)),
   kpar_l |-> [k \in 1..Len(c.kernels) |-> Ones(c.nd, Ones(NParams(c.kernels[k]), 0))]]

(* pattern: what varied when the varied-layer update was last made; <<>> before *)
NewInst(c) == [cfg |-> c, inp |-> NewInput(c), pattern |-> <<>>]

Has(I, o) == o \in I.cfg.opts
IsSet(x) == x # <<>>
InIdx(i, n) == i >= 0 /\ i < n

(* ------------------------------------------------------------------ *)
(* Which calls are accepted.  c = [op, a]: operation and argument list *)
AllGE(s, v) == \A i \in DOMAIN s : s[i] >= v
AllGT(s, v) == \A i \in DOMAIN s : s[i] > v
NonIncreasing(s) == \A i \in 2..Len(s) : s[i] <= s[i-1]
StrictlyAscending(s) == \A i \in 2..Len(s) : s[i] > s[i-1]
InteriorForbidden == AddingSolvers \cup {"sos", "two_os"}

OutLevelsOK(I, v) ==
  /\ AllGE(v, 0) /\ \A i \in DOMAIN v : v[i] <= I.cfg.nl
  /\ StrictlyAscending(v)
  /\ (I.cfg.solvers \cap InteriorForbidden # {} => \A i \in DOMAIN v : v[i] \in {0, I.cfg.nl})
  /\ (Has(I, "top_down_adding") => v[1] = I.cfg.nl)
  /\ (Has(I, "bottom_up_adding") => v[1] = 0)

CoefOK(I, h) == h.n >= 0 /\ h.n <= I.cfg.max_coef /\ (h.n > 1 => h.norm)
NegCoef(I, h) == IF h.n < 0 THEN [h EXCEPT !.n = I.cfg.max_coef] ELSE h   \* set_coef_1: negative means all

Deriv(I) == Has(I, "calc_derivs")
HasCoef(I) == I.cfg.solvers # {}
NK(I) == Len(I.cfg.kernels)
KIdx(I, k) == NK(I) > 0 /\ InIdx(k, NK(I))
NPar(I, k) == NParams(I.cfg.kernels[k + 1])

(* theta_0 and the stream angles: with more than one stream within the
   singularity threshold of the beam the call is refused.  The harness uses
   angles far from quadrature nodes, so only equal user angles matter *)
BeamClash(I, theta, us) == Cardinality({i \in DOMAIN us : us[i] = theta}) > 1

Accepts(I, c) ==
  LET a == c.a IN
  CASE c.op = "set_doub_d_tau"   -> a[1] > 0
    [] c.op = "set_pade_params"  -> TRUE
    [] c.op = "set_sos_params"   -> a[1] > 0 /\ a[2] > 0 /\ a[3] >= 0
    [] c.op = "set_fourier_tol"  -> a[1] >= 0
    [] c.op = "set_lambda"       -> Has(I, "source_thermal") /\ a[1] > 0
    [] c.op = "set_planet_r"     -> Has(I, "psa") /\ a[1] > 0
    [] c.op = "set_levels_z"     -> Has(I, "psa") /\ NonIncreasing(a[1])
    [] c.op = "set_out_levels"   -> Has(I, "output_at_levels") /\ OutLevelsOK(I, a[1])
    [] c.op = "set_out_taus"     -> Has(I, "output_at_taus") /\ AllGE(a[1], 0)
    [] c.op = "set_out_thetas"   -> I.cfg.nu > 0 /\ AllGE(a[1], 0) /\ (\A i \in DOMAIN a[1] : a[1][i] < 90000)
                                    /\ ~(IsSet(I.inp.theta_0) /\ BeamClash(I, I.inp.theta_0[1], a[1]))
    [] c.op = "set_F_iso_top"    -> a[1] >= 0
    [] c.op = "set_F_iso_bot"    -> a[1] >= 0
    [] c.op = "set_F_0"          -> Has(I, "source_solar") /\ a[1] >= 0
    [] c.op = "set_theta_0"      -> Has(I, "source_solar") /\ a[1] >= 0 /\ a[1] < 90000
                                    /\ ~(IsSet(I.inp.out_thetas) /\ BeamClash(I, a[1], I.inp.out_thetas[1]))
    [] c.op = "set_phi_0"        -> TRUE
    [] c.op = "set_levels_b"     -> Has(I, "source_thermal") /\ AllGE(a[1], 0)
    [] c.op = "set_surface_b"    -> Has(I, "source_thermal") /\ a[1] >= 0
    [] c.op = "set_g_1"          -> FALSE    \* no solver of this build uses g
    [] c.op = "set_g_n"          -> FALSE
    [] c.op = "set_coef_1"       -> HasCoef(I) /\ InIdx(a[1], I.cfg.nl) /\ CoefOK(I, NegCoef(I, a[2]))
    [] c.op = "set_coef_n"       -> HasCoef(I) /\ \A i \in DOMAIN a[1] : CoefOK(I, a[1][i])
    [] c.op = "set_omega_1"      -> InIdx(a[1], I.cfg.nl) /\ a[2] >= 0 /\ a[2] <= 1000
    [] c.op = "set_omega_n"      -> \A i \in DOMAIN a[1] : a[1][i] >= 0 /\ a[1][i] <= 1000
    [] c.op = "set_ltau_1"       -> InIdx(a[1], I.cfg.nl) /\ a[2] > 0
    [] c.op = "set_ltau_n"       -> AllGT(a[1], 0)
    [] c.op = "set_kernel_ampfac"   -> KIdx(I, a[1]) /\ a[2] >= 0 /\ a[2] <= 1000
    [] c.op = "set_kernel_params_1" -> KIdx(I, a[1]) /\ InIdx(a[2], NPar(I, a[1]))
    [] c.op = "set_kernel_params_n" -> KIdx(I, a[1])
    [] c.op = "set_kernel_func"     -> KIdx(I, a[1]) /\ I.cfg.kernels[a[1] + 1] = "user_defined"
    \* derivatives
    [] c.op \in {"set_F_iso_top_l_1", "set_F_iso_bot_l_1"} -> Deriv(I) /\ InIdx(a[1], I.cfg.nd)
    [] c.op \in {"set_F_iso_top_l_n", "set_F_iso_bot_l_n"} -> Deriv(I)
    [] c.op \in {"set_levels_b_l_1", "set_surface_b_l_1"}  -> Has(I, "source_thermal") /\ Deriv(I) /\ InIdx(a[1], I.cfg.nd)
    [] c.op \in {"set_levels_b_l_n", "set_surface_b_l_n"}  -> Has(I, "source_thermal") /\ Deriv(I)
    [] c.op \in {"set_omega_l_11", "set_ltau_l_11"} -> Deriv(I) /\ InIdx(a[1], I.cfg.nl) /\ InIdx(a[2], I.cfg.nd)
    [] c.op \in {"set_omega_l_n1", "set_ltau_l_n1"} -> Deriv(I) /\ InIdx(a[1], I.cfg.nd)
    [] c.op \in {"set_omega_l_1n", "set_ltau_l_1n"} -> Deriv(I) /\ InIdx(a[1], I.cfg.nl)
    [] c.op \in {"set_omega_l_nn", "set_ltau_l_nn"} -> Deriv(I)
    [] c.op = "set_coef_l_11" -> Deriv(I) /\ HasCoef(I) /\ InIdx(a[1], I.cfg.nl) /\ InIdx(a[2], I.cfg.nd)
    [] c.op = "set_coef_l_n1" -> Deriv(I) /\ HasCoef(I) /\ InIdx(a[1], I.cfg.nd)
    [] c.op = "set_coef_l_1n" -> Deriv(I) /\ HasCoef(I) /\ InIdx(a[1], I.cfg.nl)
    [] c.op = "set_coef_l_nn" -> Deriv(I) /\ HasCoef(I)
    [] c.op = "set_kernel_ampfac_l_1" -> Deriv(I) /\ KIdx(I, a[1]) /\ InIdx(a[2], I.cfg.nd)
    [] c.op = "set_kernel_ampfac_l_n" -> Deriv(I) /\ KIdx(I, a[1])
    [] c.op = "set_kernel_params_l_11" -> Deriv(I) /\ KIdx(I, a[1]) /\ InIdx(a[2], I.cfg.nd) /\ InIdx(a[3], NPar(I, a[1]))
    [] c.op = "set_kernel_params_l_1n" -> Deriv(I) /\ KIdx(I, a[1]) /\ InIdx(a[2], I.cfg.nd)
    [] c.op = "set_kernel_params_l_n1" -> Deriv(I) /\ KIdx(I, a[1]) /\ InIdx(a[2], NPar(I, a[1]))
    [] c.op = "set_kernel_params_l_nn" -> Deriv(I) /\ KIdx(I, a[1])

(* ------------------------------------------------------------------ *)
(* What an accepted call changes                                       *)
W(v) == <<v>>
(* number of coefficients of a layer; a linearised coefficient array that
   is given before the coefficients themselves covers the maximum *)
NCoef(I, i) == IF IsSet(I.inp.coef[i]) THEN I.inp.coef[i][1].n ELSE 0
NCoefL(I, i) == IF IsSet(I.inp.coef[i]) THEN NCoef(I, i) ELSE I.cfg.max_coef
CoverL(I, i, old, v) == [k \in 1..I.cfg.max_coef |-> IF k <= NCoefL(I, i) THEN v[k] ELSE 0]

Apply(I, c) ==
  LET a == c.a IN
  CASE c.op = "set_doub_d_tau"   -> [I EXCEPT !.inp.doub_d_tau = W(a[1])]
    [] c.op = "set_pade_params"  -> [I EXCEPT !.inp.pade = W(<<a[1], a[2]>>)]
    [] c.op = "set_sos_params"   -> [I EXCEPT !.inp.sos = W(<<a[1], a[2], a[3]>>)]
    [] c.op = "set_fourier_tol"  -> [I EXCEPT !.inp.fourier_tol = W(a[1])]
    [] c.op = "set_lambda"       -> [I EXCEPT !.inp.lambda = W(a[1])]
    [] c.op = "set_planet_r"     -> [I EXCEPT !.inp.planet_r = W(a[1])]
    [] c.op = "set_levels_z"     -> [I EXCEPT !.inp.levels_z = W(a[1])]
    [] c.op = "set_out_levels"   -> [I EXCEPT !.inp.out_levels = W(a[1])]
    [] c.op = "set_out_taus"     -> [I EXCEPT !.inp.out_taus = W(a[1])]
    [] c.op = "set_out_thetas"   -> [I EXCEPT !.inp.out_thetas = W(a[1])]
    [] c.op = "set_F_iso_top"    -> [I EXCEPT !.inp.F_iso_top = W(a[1])]
    [] c.op = "set_F_iso_bot"    -> [I EXCEPT !.inp.F_iso_bot = W(a[1])]
    [] c.op = "set_F_0"          -> [I EXCEPT !.inp.F_0 = W(a[1])]
    [] c.op = "set_theta_0"      -> [I EXCEPT !.inp.theta_0 = W(a[1])]
    [] c.op = "set_phi_0"        -> [I EXCEPT !.inp.phi_0 = W(a[1])]
    [] c.op = "set_levels_b"     -> [I EXCEPT !.inp.levels_b = W(a[1])]
    [] c.op = "set_surface_b"    -> [I EXCEPT !.inp.surface_b = W(a[1])]
    [] c.op = "set_coef_1"       -> [I EXCEPT !.inp.coef[a[1] + 1] = W(NegCoef(I, a[2]))]
    [] c.op = "set_coef_n"       -> [I EXCEPT !.inp.coef = [i \in 1..I.cfg.nl |-> W(a[1][i])]]
    [] c.op = "set_omega_1"      -> [I EXCEPT !.inp.omega[a[1] + 1] = W(a[2])]
    [] c.op = "set_omega_n"      -> [I EXCEPT !.inp.omega = [i \in 1..I.cfg.nl |-> W(a[1][i])]]
    [] c.op = "set_ltau_1"       -> [I EXCEPT !.inp.ltau[a[1] + 1] = W(a[2])]
    [] c.op = "set_ltau_n"       -> [I EXCEPT !.inp.ltau = [i \in 1..I.cfg.nl |-> W(a[1][i])]]
    [] c.op = "set_kernel_ampfac"   -> [I EXCEPT !.inp.kamp[a[1] + 1] = W(a[2])]
    [] c.op = "set_kernel_params_1" -> [I EXCEPT !.inp.kpar[a[1] + 1][a[2] + 1] = W(a[3])]
    [] c.op = "set_kernel_params_n" -> [I EXCEPT !.inp.kpar[a[1] + 1] = [p \in 1..NPar(I, a[1]) |-> W(a[2][p])]]
    [] c.op = "set_kernel_func"     -> [I EXCEPT !.inp.kfun[a[1] + 1] = W(1)]
    [] c.op = "set_F_iso_top_l_1" -> [I EXCEPT !.inp.F_iso_top_l[a[1] + 1] = a[2]]
    [] c.op = "set_F_iso_top_l_n" -> [I EXCEPT !.inp.F_iso_top_l = a[1]]
    [] c.op = "set_F_iso_bot_l_1" -> [I EXCEPT !.inp.F_iso_bot_l[a[1] + 1] = a[2]]
    [] c.op = "set_F_iso_bot_l_n" -> [I EXCEPT !.inp.F_iso_bot_l = a[1]]
    [] c.op = "set_levels_b_l_1"  -> [I EXCEPT !.inp.levels_b_l[a[1] + 1] = a[2]]
    [] c.op = "set_levels_b_l_n"  -> [I EXCEPT !.inp.levels_b_l = a[1]]            \* a[1][deriv][level]
    [] c.op = "set_surface_b_l_1" -> [I EXCEPT !.inp.surface_b_l[a[1] + 1] = a[2]]
    [] c.op = "set_surface_b_l_n" -> [I EXCEPT !.inp.surface_b_l = a[1]]
    [] c.op = "set_omega_l_11" -> [I EXCEPT !.inp.omega_l[a[1] + 1][a[2] + 1] = a[3]]
    [] c.op = "set_omega_l_n1" -> [I EXCEPT !.inp.omega_l = [i \in 1..I.cfg.nl |-> [@[i] EXCEPT ![a[1] + 1] = a[2][i]]]]
    [] c.op = "set_omega_l_1n" -> [I EXCEPT !.inp.omega_l[a[1] + 1] = a[2]]
    [] c.op = "set_omega_l_nn" -> [I EXCEPT !.inp.omega_l = a[1]]                  \* a[1][layer][deriv]
    [] c.op = "set_ltau_l_11"  -> [I EXCEPT !.inp.ltau_l[a[1] + 1][a[2] + 1] = a[3]]
    [] c.op = "set_ltau_l_n1"  -> [I EXCEPT !.inp.ltau_l = [i \in 1..I.cfg.nl |-> [@[i] EXCEPT ![a[1] + 1] = a[2][i]]]]
    [] c.op = "set_ltau_l_1n"  -> [I EXCEPT !.inp.ltau_l[a[1] + 1] = a[2]]
    [] c.op = "set_ltau_l_nn"  -> [I EXCEPT !.inp.ltau_l = a[1]]
    [] c.op = "set_coef_l_11"  -> [I EXCEPT !.inp.coef_l[a[1] + 1][a[2] + 1] = CoverL(I, a[1] + 1, @, a[3])]
    [] c.op = "set_coef_l_n1"  -> [I EXCEPT !.inp.coef_l = [i \in 1..I.cfg.nl |->
                                     [@[i] EXCEPT ![a[1] + 1] = CoverL(I, i, @, a[2][i])]]]
    [] c.op = "set_coef_l_1n"  -> [I EXCEPT !.inp.coef_l[a[1] + 1] = [j \in 1..I.cfg.nd |-> CoverL(I, a[1] + 1, @[j], a[2][j])]]
    [] c.op = "set_coef_l_nn"  -> [I EXCEPT !.inp.coef_l = [i \in 1..I.cfg.nl |->
                                     [j \in 1..I.cfg.nd |-> CoverL(I, i, @[i][j], a[1][i][j])]]]
    [] c.op = "set_kernel_ampfac_l_1" -> [I EXCEPT !.inp.kamp_l[a[1] + 1][a[2] + 1] = a[3]]
    [] c.op = "set_kernel_ampfac_l_n" -> [I EXCEPT !.inp.kamp_l[a[1] + 1] = a[2]]
    [] c.op = "set_kernel_params_l_11" -> [I EXCEPT !.inp.kpar_l[a[1] + 1][a[2] + 1][a[3] + 1] = a[4]]
    [] c.op = "set_kernel_params_l_1n" -> [I EXCEPT !.inp.kpar_l[a[1] + 1][a[2] + 1] = [p \in 1..NPar(I, a[1]) |-> a[3][p]]]
    [] c.op = "set_kernel_params_l_n1" -> [I EXCEPT !.inp.kpar_l[a[1] + 1] =
                                     [j \in 1..I.cfg.nd |-> [@[j] EXCEPT ![a[2] + 1] = a[3][j]]]]
    [] c.op = "set_kernel_params_l_nn" -> [I EXCEPT !.inp.kpar_l[a[1] + 1] =
                                     [j \in 1..I.cfg.nd |-> [p \in 1..NPar(I, a[1]) |-> a[2][j][p]]]]

Set(I, c) == IF Accepts(I, c) THEN Apply(I, c) ELSE I

(* ------------------------------------------------------------------ *)
(* Required inputs                                                     *)
Missing(I) ==
  LET n == I.inp c == I.cfg
      need(name, cond, x) == IF cond /\ ~IsSet(x) THEN {name} ELSE {} IN
  UNION {
    need("doub_d_tau", "doub_add" \in c.solvers, n.doub_d_tau),
    need("pade_params", "pade_add" \in c.solvers, n.pade),
    need("sos_params", "sos" \in c.solvers, n.sos),
    need("fourier_tol", TRUE, n.fourier_tol),
    need("planet_r", Has(I, "psa"), n.planet_r),
    need("levels_z", Has(I, "psa"), n.levels_z),
    need("out_levels", Has(I, "output_at_levels"), n.out_levels),
    need("out_taus", Has(I, "output_at_taus"), n.out_taus),
    need("out_thetas", c.nu > 0, n.out_thetas),
    need("F_iso_top", TRUE, n.F_iso_top), need("F_iso_bot", TRUE, n.F_iso_bot),
    need("F_0", Has(I, "source_solar"), n.F_0),
    need("theta_0", Has(I, "source_solar"), n.theta_0),
    need("phi_0", Has(I, "source_solar"), n.phi_0),
    need("levels_b", Has(I, "source_thermal"), n.levels_b),
    need("surface_b", Has(I, "source_thermal"), n.surface_b) }
  \cup UNION { need("coef", HasCoef(I), n.coef[i]) \cup need("omega", TRUE, n.omega[i]) \cup need("ltau", TRUE, n.ltau[i]) : i \in 1..c.nl }
  \cup UNION { need("kernel_ampfac", TRUE, n.kamp[k])
               \cup (IF \E p \in 1..NParams(c.kernels[k]) : ~IsSet(n.kpar[k][p]) THEN {"kernel_params"} ELSE {})
               \cup need("kernel_funcs", c.kernels[k] = "user_defined", n.kfun[k]) : k \in 1..Len(c.kernels) }
Complete(I) == Missing(I) = {}

(* Which layers, and whether the surface or sources, vary in each derivative *)
VariedLayer(I, i, j) ==
  \/ I.inp.ltau_l[i][j] # 0 \/ I.inp.omega_l[i][j] # 0
  \/ \E k \in 2..NCoef(I, i) : I.inp.coef_l[i][j][k] # 0
VariedSurface(I, j) == \E k \in 1..NK(I) :
  \/ I.inp.kamp_l[k][j] # 0 \/ \E p \in DOMAIN I.inp.kpar_l[k][j] : I.inp.kpar_l[k][j][p] # 0
Pattern(I) ==
  << [j \in 1..I.cfg.nd |->
     <<[i \in 1..I.cfg.nl |-> VariedLayer(I, i, j)], VariedSurface(I, j),
       [i \in 1..I.cfg.nl + 1 |-> Has(I, "source_thermal") /\ I.inp.levels_b_l[j][i] # 0],
       Has(I, "source_thermal") /\ I.inp.surface_b_l[j] # 0>>] >>
UpdateOK(I) == Deriv(I) /\ Complete(I)
Update(I) == IF UpdateOK(I) THEN [I EXCEPT !.pattern = Pattern(I)] ELSE I
(* The user must repeat the update when the pattern changes; a solve before
   that is outside the documented use and constrains nothing *)
PatternCurrent(I) == Deriv(I) => I.pattern = Pattern(I)

(* A layer that scatters but has no phase function coefficients, or one that
   is not normalised, is outside the documented use as well (the set call
   checks the first coefficient only when there are more) *)
Sensible(I) == Complete(I) =>
  \A i \in 1..I.cfg.nl : (I.inp.coef[i][1].n = 0 \/ ~I.inp.coef[i][1].norm) => I.inp.omega[i][1] = 0
Defined(I) == PatternCurrent(I) /\ Sensible(I)

TotalTau(I) == LET RECURSIVE S(_)
                   S(i) == IF i = 0 THEN 0 ELSE I.inp.ltau[i][1] + S(i - 1)
               IN S(I.cfg.nl)
TausOK(I) == Has(I, "output_at_taus") =>
  /\ StrictlyAscending(I.inp.out_taus[1])
  /\ I.inp.out_taus[1][Len(I.inp.out_taus[1])] <= TotalTau(I)

(* request: [solver, outs: set of output names, nphi, phis] *)
RequestOK(I, r) ==
  /\ r.solver \in I.cfg.solvers
  /\ r.outs # {}
  /\ ("radiance" \in r.outs => r.nphi > 0)
  /\ (r.solver = "single" => r.outs \cap {"radiance_mean", "flux", "flux_divergence"} = {})
Ready(I) == Complete(I) /\ TausOK(I) /\ (Deriv(I) => I.pattern # <<>>)
SolveOK(I, r) == RequestOK(I, r) /\ Ready(I)
=============================================================================

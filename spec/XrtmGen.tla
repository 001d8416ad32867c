------------------------------- MODULE XrtmGen -------------------------------
(* Behaviours of the instance specification, generated with TLC -simulate    *)
(* and replayed into the library.  A behaviour is a sequence of events       *)
(*   [op, i, ...]  with op in create, a setter name, update, clear, snap,    *)
(*                 solve, destroy                                            *)
(* Mode selects which part of the behaviour space is explored.               *)
EXTENDS XrtmKnown, Json, SequencesExt, TLCExt
CONSTANTS Mode, Len1
VARIABLES S,      \* instances: function from slot to instance (absent = none)
          hist, ph

R(X) == RandomElement(X)
Pct(n) == RandomElement(1..100) <= n
Opt(n, o) == IF Pct(n) THEN {o} ELSE {}
(* TLC evaluates functions lazily, again at every application: the
   fingerprint forces the value, so that a random choice is made once *)
Pick(T) == LET v == TLCEval(T) IN IF TLCFP(v) = 0 THEN v ELSE v

(* ---------------- configurations ---------------- *)
DerivMode == Mode \in {"P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18", "P21", "P23", "history", "again", "save", "saved", "getters", "reject", "multi", "derivs", "complete", "lifecycle"}
RandCand(z) ==
  LET vec  == Pick(Pct(25))
      nd   == Pick(IF DerivMode /\ Pct(50) THEN R(1..3) ELSE 0)
      noaz == Pick(Pct(10))
      taus == Pick(Pct(20))
      sfi  == Pick(Pct(15))
      one  == Pick(R({"none", "none", "none", "none", "none", "none", "top_down_adding", "bottom_up_adding"}))
      savep == IF Mode \in {"save", "again", "saved"} THEN 45 ELSE 15
      nk   == Pick(R({0, 1, 1, 2, 3}))
      nl   == Pick(R({1, 2, 2, 3, 3, 4}))
      o == Pick(UNION {
             IF nd > 0 THEN {"calc_derivs"} ELSE {},
             IF vec THEN {"vector"} ELSE {},
             IF vec /\ Pct(50) THEN {"phase_matrix_gc"} ELSE {},
             Opt(50, "delta_m"),
             IF noaz THEN {"no_azimuthal"} ELSE Opt(40, "n_t_tms"),
             R({{}, {"four_conv_old"}, {"four_conv_new"}}),
             IF taus THEN {"output_at_taus"} ELSE {"output_at_levels"},
             R({{}, {"part_sol_classical"}, {"part_sol_greens"}}),
             Opt(20, "psa"),
             R({{}, {"quad_norm_gaus_leg"}, {"quad_doub_gaus_leg"}}),
             Opt(savep, "save_leg_polys"), Opt(savep, "save_phase_mats"), Opt(savep, "save_local_r_t"),
             Opt(savep, "save_layer_r_t_s"), Opt(savep, "save_total_r_t_s"),
             IF nd > 0 THEN Opt(savep, "stack_reuse_adding") ELSE {},
             IF sfi THEN {"sfi"} ELSE {},
             IF one = "none" THEN {} ELSE {one},
             R({{"source_solar"}, {"source_solar"}, {"source_solar"}, {"source_thermal"}, {"source_solar", "source_thermal"}, {}}),
             R({{}, {}, {}, {"upwelling_output"}, {"downwelling_output"}, {"upwelling_output", "downwelling_output"}}) })
      c == Pick([opts |-> o, solvers |-> {}, max_coef |-> R({9, 9, 12, 40}), nq |-> R({1, 2, 2, 3, 3, 4}),
            ns |-> IF vec THEN R({1, 3, 4, 4}) ELSE 1, nd |-> nd, nl |-> nl, nth |-> 1,
            kernels |-> [k \in 1..nk |-> R({"lambertian", "lambertian", "direct_and_diffuse", "roujean", "li_sparse",
                              "li_dense", "ross_thin", "ross_thick", "hapke", "rahman", "cox_munk", "user_defined"})],
            nkq |-> IF nk > 0 THEN R({4, 8}) ELSE R({0, 4}),
            nlev |-> IF one # "none" THEN 1 ELSE R({1, 2, 2, 2, 3}), nu |-> IF sfi THEN R(1..2) ELSE R({0, 0, 1, 2, 3})])
      ro == Resolve(c.opts, c.ns)
      allowed == Pick((Solvers \ Excluded(ro, c)) \ (IF vec \/ nd > 0 \/ c.ns > 1 THEN FewStream ELSE {}))
      sub == Pick({s \in allowed : Pct(IF Mode \in {"save", "again", "saved"} THEN 60 ELSE 40)})
  IN [c EXCEPT !.solvers = IF sub = {} /\ allowed # {} THEN {R(allowed)} ELSE sub]
Safe(c) == {sv \in c.solvers : ~Hazard(c, sv, {"radiance"})}
CandOK(c) == c.solvers # {} /\ CreateLegal(c) /\ Safe(Created(c)) # {} /\ (c.nlev <= (IF "output_at_taus" \in c.opts THEN 3 ELSE c.nl + 1))
RECURSIVE RandCfg(_)
RandCfg(k) == LET c == Pick(RandCand(k)) IN IF CandOK(c) THEN c ELSE RandCfg(k + 1)

(* ---------------- arguments ---------------- *)
Thetas == {0, 5000, 20000, 35000, 47000, 58000, 75000}
Phis == {0, 30000, 45000, 90000, 135000, 180000, 270000, -60000}
RandH(I) == LET n == Pick(R(IF Pct(10) THEN {1, 2} ELSE {3, 5, 9, I.cfg.max_coef})) IN [id |-> R(1..7), n |-> n, norm |-> TRUE]
RandB(I) == [i \in 1..(I.cfg.nl + 1) |-> R({0, 200, 500, 900, 1300})]
RandTaus(I) ==   \* strictly ascending
  LET tot == IF \A i \in 1..I.cfg.nl : IsSet(I.inp.ltau[i]) THEN TotalTau(I) ELSE 1000
      pts == Pick({R(0..tot) : z \in 1..(3 * I.cfg.nlev)} \cup (IF Pct(30) THEN {0} ELSE {}) \cup (IF Pct(30) THEN {tot} ELSE {}) \cup 1..3)
      RECURSIVE Sub(_, _)
      Sub(X, n) == IF n = 0 THEN {} ELSE LET x == Pick(R(X)) IN {x} \cup Sub(X \ {x}, n - 1)
  IN SetToSortSeq(Pick(Sub(pts, I.cfg.nlev)), <)
RandLevels(I) ==
  LET all == IF Has(I, "top_down_adding") THEN {I.cfg.nl} ELSE IF Has(I, "bottom_up_adding") THEN {0}
             ELSE IF I.cfg.solvers \cap InteriorForbidden # {} THEN {0, I.cfg.nl} ELSE 0..I.cfg.nl
      RECURSIVE Sub(_, _)
      Sub(X, n) == IF n = 0 \/ X = {} THEN {} ELSE LET x == Pick(R(X)) IN {x} \cup Sub(X \ {x}, n - 1)
  IN SetToSortSeq(Pick(Sub(all, I.cfg.nlev)), <)
RandZ(I) == LET s == Pick([i \in 1..(I.cfg.nl + 1) |-> R({0, 1, 2, 5, 10})])
                RECURSIVE Up(_)
                Up(i) == IF i > I.cfg.nl + 1 THEN 0 ELSE s[i] * 1000 + 1000 + Up(i + 1)
            IN [i \in 1..(I.cfg.nl + 1) |-> Up(i + 1)]
RandTau(z) == R({10, 51, 102, 256, 512, 1024, 2048})
RandOm(z) == R({0, 0, 200, 500, 800, 900, 990, 1000})
KPar(k, p) == CASE k = "direct_and_diffuse" -> R({100, 300, 500})
                [] k \in {"li_sparse", "li_dense"} -> R({1000, 1500, 2000})
                [] k = "hapke" -> R({100, 300, 600})
                [] k = "rahman" -> R({100, 300, 600})
                [] k = "cox_munk" -> IF p = 1 THEN R({2000, 5000, 9000}) ELSE R({1340, 1400})
                [] OTHER -> R({0, 500})
KParVec(I, k) == [p \in 1..NPar(I, k) |-> KPar(I.cfg.kernels[k + 1], p)]
DS(z) == IF Pct(35) THEN 0 ELSE R({-300, 100, 1000})       \* derivative values
CDS(z) == IF Pct(40) THEN 0 ELSE R(1..5)                   \* derivative coefficient sets
SeqN(n, Z(_)) == [i \in 1..n |-> Z(i)]
LayerIx(I) == R(0..(I.cfg.nl - 1))
DerivIx(I) == R(0..(IF I.cfg.nd = 0 THEN 0 ELSE I.cfg.nd - 1))
KernIx(I) == R(0..(IF NK(I) = 0 THEN 0 ELSE NK(I) - 1))
CVec(I) == LET v == Pick(CDS(1)) IN [k \in 1..I.cfg.max_coef |-> v]

ScalarOps == <<"set_doub_d_tau", "set_pade_params", "set_sos_params", "set_fourier_tol", "set_lambda", "set_planet_r",
  "set_levels_z", "set_out_levels", "set_out_taus", "set_out_thetas", "set_F_iso_top", "set_F_iso_bot", "set_F_0",
  "set_theta_0", "set_phi_0", "set_levels_b", "set_surface_b">>
LayerOps == <<"set_coef_1", "set_coef_n", "set_omega_1", "set_omega_n", "set_ltau_1", "set_ltau_n">>
KernelOps == <<"set_kernel_ampfac", "set_kernel_params_1", "set_kernel_params_n", "set_kernel_func">>
LinOps == <<"set_F_iso_top_l_1", "set_F_iso_top_l_n", "set_F_iso_bot_l_1", "set_F_iso_bot_l_n", "set_levels_b_l_1",
  "set_levels_b_l_n", "set_surface_b_l_1", "set_surface_b_l_n", "set_omega_l_11", "set_omega_l_n1", "set_omega_l_1n",
  "set_omega_l_nn", "set_ltau_l_11", "set_ltau_l_n1", "set_ltau_l_1n", "set_ltau_l_nn", "set_coef_l_11",
  "set_coef_l_n1", "set_coef_l_1n", "set_coef_l_nn">>
LinKernelOps == <<"set_kernel_ampfac_l_1", "set_kernel_ampfac_l_n", "set_kernel_params_l_11",
  "set_kernel_params_l_1n", "set_kernel_params_l_n1", "set_kernel_params_l_nn">>
AllOps == Range(ScalarOps) \cup Range(LayerOps) \cup Range(KernelOps) \cup Range(LinOps) \cup Range(LinKernelOps)

(* Arguments that are in range when the call is legal at all *)
Args(I, op) ==
  LET L == LayerIx(I) D == DerivIx(I) K == KernIx(I) nl == I.cfg.nl nd == I.cfg.nd IN
  CASE op = "set_doub_d_tau"  -> <<R({500, 1000, 5000})>>
    [] op = "set_pade_params" -> R({<<-1, -1>>, <<0, 3>>, <<1, 4>>, <<2, 5>>})
    [] op = "set_sos_params"  -> <<R({40, 60}), R({20000, 50000}), R({0, 1})>>
    [] op = "set_fourier_tol" -> <<R({0, 0, 1, 100})>>
    [] op = "set_lambda"      -> <<R({500, 1000, 11000})>>
    [] op = "set_planet_r"    -> <<R({200000, 600000, 6371000})>>
    [] op = "set_levels_z"    -> <<RandZ(I)>>
    [] op = "set_out_levels"  -> <<RandLevels(I)>>
    [] op = "set_out_taus"    -> <<RandTaus(I)>>
    [] op = "set_out_thetas"  -> <<[u \in 1..(IF I.cfg.nu > 0 THEN I.cfg.nu ELSE 1) |-> R(Thetas)]>>
    [] op \in {"set_F_iso_top", "set_F_iso_bot"} -> <<R({0, 0, 300, 1000})>>
    [] op = "set_F_0"         -> <<R({0, 1000, 1000, 2000, 3141})>>
    [] op = "set_theta_0"     -> <<R(Thetas)>>
    [] op = "set_phi_0"       -> <<R(Phis)>>
    [] op = "set_levels_b"    -> <<RandB(I)>>
    [] op = "set_surface_b"   -> <<R({0, 400, 1000})>>
    [] op = "set_coef_1"      -> <<L, RandH(I)>>
    [] op = "set_coef_n"      -> <<[i \in 1..nl |-> RandH(I)]>>
    [] op = "set_omega_1"     -> <<L, RandOm(1)>>
    [] op = "set_omega_n"     -> <<[i \in 1..nl |-> RandOm(1)]>>
    [] op = "set_ltau_1"      -> <<L, RandTau(1)>>
    [] op = "set_ltau_n"      -> <<[i \in 1..nl |-> RandTau(1)]>>
    [] op = "set_kernel_ampfac"   -> <<K, R({0, 100, 300, 500})>>
    [] op = "set_kernel_params_1" -> LET k == Pick(K) IN
          IF NK(I) = 0 \/ NPar(I, k) = 0 THEN <<k, 0, 100>>
          ELSE LET p == Pick(R(0..(NPar(I, k) - 1))) IN <<k, p, KPar(I.cfg.kernels[k + 1], p + 1)>>
    [] op = "set_kernel_params_n" -> LET k == Pick(K) IN <<k, IF NK(I) = 0 THEN <<>> ELSE KParVec(I, k)>>
    [] op = "set_kernel_func"     -> <<K>>
    [] op \in {"set_F_iso_top_l_1", "set_F_iso_bot_l_1", "set_surface_b_l_1"} -> <<D, DS(1)>>
    [] op \in {"set_F_iso_top_l_n", "set_F_iso_bot_l_n", "set_surface_b_l_n"} -> <<[j \in 1..nd |-> DS(1)]>>
    [] op = "set_levels_b_l_1" -> <<D, [i \in 1..(nl + 1) |-> DS(1)]>>
    [] op = "set_levels_b_l_n" -> <<[j \in 1..nd |-> [i \in 1..(nl + 1) |-> DS(1)]]>>
    [] op \in {"set_omega_l_11", "set_ltau_l_11"} -> <<L, D, DS(1)>>
    [] op \in {"set_omega_l_n1", "set_ltau_l_n1"} -> <<D, [i \in 1..nl |-> DS(1)]>>
    [] op \in {"set_omega_l_1n", "set_ltau_l_1n"} -> <<L, [j \in 1..nd |-> DS(1)]>>
    [] op \in {"set_omega_l_nn", "set_ltau_l_nn"} -> <<[i \in 1..nl |-> [j \in 1..nd |-> DS(1)]]>>
    [] op = "set_coef_l_11" -> <<L, D, CVec(I)>>
    [] op = "set_coef_l_n1" -> <<D, [i \in 1..nl |-> CVec(I)]>>
    [] op = "set_coef_l_1n" -> <<L, [j \in 1..nd |-> CVec(I)]>>
    [] op = "set_coef_l_nn" -> <<[i \in 1..nl |-> [j \in 1..nd |-> CVec(I)]]>>
    [] op = "set_kernel_ampfac_l_1" -> <<K, D, DS(1)>>
    [] op = "set_kernel_ampfac_l_n" -> <<K, [j \in 1..nd |-> DS(1)]>>
    [] op = "set_kernel_params_l_11" -> LET k == Pick(K) IN <<k, D, IF NK(I) = 0 \/ NPar(I, k) = 0 THEN 0 ELSE R(0..(NPar(I, k) - 1)), DS(1)>>
    [] op = "set_kernel_params_l_1n" -> LET k == Pick(K) IN <<k, D, IF NK(I) = 0 THEN <<>> ELSE [p \in 1..NPar(I, k) |-> DS(1)]>>
    [] op = "set_kernel_params_l_n1" -> LET k == Pick(K) IN <<k, IF NK(I) = 0 \/ NPar(I, k) = 0 THEN 0 ELSE R(0..(NPar(I, k) - 1)), [j \in 1..nd |-> DS(1)]>>
    [] op = "set_kernel_params_l_nn" -> LET k == Pick(K) IN <<k, IF NK(I) = 0 THEN [j \in 1..nd |-> <<>>] ELSE [j \in 1..nd |-> [p \in 1..NPar(I, k) |-> DS(1)]]>>

(* Arguments on, just inside and outside the bounds.  -1 and n are the
   indices next to the legal ones *)
BadIx(n) == R({-1, 0, n - 1, n, n + 1})
SpoilSeq(s, V) == IF Len(s) = 0 THEN s ELSE [s EXCEPT ![R(1..Len(s))] = R(V)]
SpoilH(I, h) == CASE Pct(30) -> [h EXCEPT !.n = R({I.cfg.max_coef + 1, I.cfg.max_coef, 0, 1})]
                  [] Pct(40) -> [h EXCEPT !.norm = FALSE]
                  [] OTHER -> h
EdgeArgs(I, op) ==
  LET a == Pick(Args(I, op)) nl == I.cfg.nl nd == I.cfg.nd IN
  CASE op = "set_doub_d_tau"  -> <<R({0, -1, 1, 500})>>
    [] op = "set_sos_params"  -> <<R({0, -1, 1, 40}), R({0, -1, 1000, 50000}), R({-1, 0, 1})>>
    [] op = "set_fourier_tol" -> <<R({-1, 0, 1})>>
    [] op = "set_lambda" -> <<R({-1, 0, 1, 1000})>>
    [] op = "set_planet_r" -> <<R({-1, 0, 3000000, 6371000})>>
    [] op = "set_levels_z"    -> <<SpoilSeq(a[1], {-1, 0, 5000, 60000})>>
    [] op = "set_out_levels"  -> <<SpoilSeq(a[1], {-1, 0, 1, nl - 1, nl, nl + 1})>>
    [] op = "set_out_taus"    -> <<SpoilSeq(a[1], {-1, 0, 1})>>
    [] op = "set_out_thetas"  -> <<SpoilSeq(a[1], {-1, 0, 89999, 90000, 120000} \cup (IF IsSet(I.inp.theta_0) THEN {I.inp.theta_0[1]} ELSE {}))>>
    [] op \in {"set_F_iso_top", "set_F_iso_bot", "set_F_0", "set_surface_b"} -> <<R({-1, 0, 1})>>
    [] op = "set_theta_0"     -> <<R({-1, 0, 89999, 90000, 120000} \cup (IF IsSet(I.inp.out_thetas) THEN Range(I.inp.out_thetas[1]) ELSE {}))>>
    [] op = "set_levels_b"    -> <<SpoilSeq(a[1], {-1, 0})>>
    [] op = "set_coef_1"      -> <<BadIx(nl), IF Pct(20) THEN [a[2] EXCEPT !.n = -1] ELSE SpoilH(I, a[2])>>
    [] op = "set_coef_n"      -> <<LET i == R(1..nl) IN [a[1] EXCEPT ![i] = SpoilH(I, @)]>>
    [] op = "set_omega_1"     -> <<BadIx(nl), R({-1, 0, 1, 999, 1000, 1001})>>
    [] op = "set_omega_n"     -> <<SpoilSeq(a[1], {-1, 0, 1000, 1001})>>
    [] op = "set_ltau_1"      -> <<BadIx(nl), R({-1, 0, 1, 100})>>
    [] op = "set_ltau_n"      -> <<SpoilSeq(a[1], {-1, 0, 1})>>
    [] op = "set_kernel_ampfac" -> <<BadIx(NK(I)), R({-1, 0, 1000, 1001})>>
    [] op = "set_kernel_params_1" -> IF Pct(50) THEN <<a[1], IF NK(I) = 0 THEN 0 ELSE BadIx(NPar(I, a[1])), a[3]>> ELSE <<BadIx(NK(I)), 0, a[3]>>
    [] op = "set_kernel_params_n" -> IF Pct(50) THEN a ELSE <<R({-1, NK(I)}), <<>> >>
    [] op = "set_kernel_func" -> <<BadIx(NK(I))>>
    [] op \in {"set_F_iso_top_l_1", "set_F_iso_bot_l_1", "set_surface_b_l_1", "set_levels_b_l_1",
               "set_omega_l_n1", "set_ltau_l_n1", "set_coef_l_n1"} -> <<BadIx(nd), a[2]>>
    [] op \in {"set_omega_l_1n", "set_ltau_l_1n", "set_coef_l_1n"} -> <<BadIx(nl), a[2]>>
    [] op \in {"set_omega_l_11", "set_ltau_l_11", "set_coef_l_11"} -> IF Pct(50) THEN <<BadIx(nl), a[2], a[3]>> ELSE <<a[1], BadIx(nd), a[3]>>
    [] op = "set_kernel_ampfac_l_1" -> IF Pct(50) THEN <<BadIx(NK(I)), a[2], a[3]>> ELSE <<a[1], BadIx(nd), a[3]>>
    [] op = "set_kernel_ampfac_l_n" -> <<BadIx(NK(I)), a[2]>>
    [] op = "set_kernel_params_l_11" -> CASE Pct(33) -> <<R({-1, NK(I)}), a[2], a[3], a[4]>>
                                          [] Pct(50) -> <<a[1], BadIx(nd), a[3], a[4]>>
                                          [] OTHER -> <<a[1], a[2], IF NK(I) = 0 THEN 0 ELSE BadIx(NPar(I, a[1])), a[4]>>
    [] op = "set_kernel_params_l_1n" -> <<a[1], BadIx(nd), a[3]>>
    [] op = "set_kernel_params_l_n1" -> <<a[1], IF NK(I) = 0 THEN 0 ELSE BadIx(NPar(I, a[1])), a[3]>>
    [] OTHER -> a

(* kernel parameters of a bulk call whose kernel index is bad carry no values *)

(* ---------------- canonical reconstruction ---------------- *)
Cl(op, a) == [op |-> op, a |-> a]
IfSet(op, x) == IF IsSet(x) THEN <<Cl(op, <<x[1]>>)>> ELSE <<>>
Cat(ss) == FlattenSeq(ss)
Canonical(I) ==
  LET n == I.inp nl == I.cfg.nl nk == NK(I) IN
  IfSet("set_doub_d_tau", n.doub_d_tau)
  \o (IF IsSet(n.pade) THEN <<Cl("set_pade_params", n.pade[1])>> ELSE <<>>)
  \o (IF IsSet(n.sos) THEN <<Cl("set_sos_params", n.sos[1])>> ELSE <<>>)
  \o IfSet("set_fourier_tol", n.fourier_tol) \o IfSet("set_lambda", n.lambda) \o IfSet("set_planet_r", n.planet_r)
  \o IfSet("set_levels_z", n.levels_z) \o IfSet("set_out_levels", n.out_levels)
  \o IfSet("set_out_thetas", n.out_thetas)
  \o IfSet("set_F_iso_top", n.F_iso_top) \o IfSet("set_F_iso_bot", n.F_iso_bot) \o IfSet("set_F_0", n.F_0)
  \o IfSet("set_theta_0", n.theta_0) \o IfSet("set_phi_0", n.phi_0)
  \o IfSet("set_levels_b", n.levels_b) \o IfSet("set_surface_b", n.surface_b)
  \o Cat([i \in 1..nl |-> (IF IsSet(n.coef[i]) THEN <<Cl("set_coef_1", <<i - 1, n.coef[i][1]>>)>> ELSE <<>>)
                          \o (IF IsSet(n.omega[i]) THEN <<Cl("set_omega_1", <<i - 1, n.omega[i][1]>>)>> ELSE <<>>)
                          \o (IF IsSet(n.ltau[i]) THEN <<Cl("set_ltau_1", <<i - 1, n.ltau[i][1]>>)>> ELSE <<>>)])
  \o IfSet("set_out_taus", n.out_taus)
  \o Cat([k \in 1..nk |-> (IF IsSet(n.kamp[k]) THEN <<Cl("set_kernel_ampfac", <<k - 1, n.kamp[k][1]>>)>> ELSE <<>>)
           \o Cat([p \in DOMAIN n.kpar[k] |-> IF IsSet(n.kpar[k][p]) THEN <<Cl("set_kernel_params_1", <<k - 1, p - 1, n.kpar[k][p][1]>>)>> ELSE <<>>])
           \o (IF IsSet(n.kfun[k]) THEN <<Cl("set_kernel_func", <<k - 1>>)>> ELSE <<>>)])
  \o (IF ~Deriv(I) THEN <<>> ELSE
      <<Cl("set_F_iso_top_l_n", <<n.F_iso_top_l>>), Cl("set_F_iso_bot_l_n", <<n.F_iso_bot_l>>)>>
      \o (IF Has(I, "source_thermal") THEN <<Cl("set_levels_b_l_n", <<n.levels_b_l>>), Cl("set_surface_b_l_n", <<n.surface_b_l>>)>> ELSE <<>>)
      \o <<Cl("set_omega_l_nn", <<n.omega_l>>), Cl("set_ltau_l_nn", <<n.ltau_l>>), Cl("set_coef_l_nn", <<n.coef_l>>)>>
      \o Cat([k \in 1..nk |-> <<Cl("set_kernel_ampfac_l_n", <<k - 1, n.kamp_l[k]>>)>>
                \o (IF NPar(I, k - 1) > 0 THEN <<Cl("set_kernel_params_l_nn", <<k - 1, n.kpar_l[k]>>)>> ELSE <<>>)]))
RECURSIVE Fold(_, _)
Fold(I, s) == IF s = <<>> THEN I ELSE Fold(Set(I, Head(s)), Tail(s))
(* what an answer can depend on: derivative coefficients beyond the current
   number of coefficients are not seen *)
Seen(I) == [I.inp EXCEPT !.coef_l = [i \in 1..I.cfg.nl |-> [j \in 1..I.cfg.nd |->
              [k \in 1..I.cfg.max_coef |-> IF k <= NCoef(I, i) THEN @[i][j][k] ELSE 0]]]]
CanonicalOK(I) == Seen(Fold(NewInst(I.cfg), Canonical(I))) = Seen(I)

(* ---------------- events ---------------- *)
Ev(i, c, ok) == [op |-> c.op, i |-> i, a |-> c.a, ok |-> ok]
Slots == IF Mode = "multi" THEN {0, 1, 2} ELSE IF Mode = "lifecycle" THEN {0, 1} ELSE {0}
Live == DOMAIN S

OpWeights(I) ==
  LET s == Range(ScalarOps) \cup Range(LayerOps) IN
  IF Pct(60) THEN s ELSE IF Pct(50) /\ NK(I) > 0 THEN Range(KernelOps) \cup Range(LinKernelOps)
  ELSE Range(LinOps)
UsefulOps(I) == {op \in AllOps :
   /\ ~(op \in Range(LinOps) \cup Range(LinKernelOps) /\ ~Deriv(I))
   /\ ~(op \in Range(KernelOps) \cup Range(LinKernelOps) /\ NK(I) = 0)
   /\ ~(op \in {"set_levels_b", "set_surface_b", "set_lambda", "set_levels_b_l_1", "set_levels_b_l_n", "set_surface_b_l_1", "set_surface_b_l_n"} /\ ~Has(I, "source_thermal"))
   /\ ~(op \in {"set_F_0", "set_theta_0"} /\ ~Has(I, "source_solar"))
   /\ ~(op \in {"set_planet_r", "set_levels_z"} /\ ~Has(I, "psa"))
   /\ ~(op = "set_out_levels" /\ ~Has(I, "output_at_levels")) /\ ~(op = "set_out_taus" /\ ~Has(I, "output_at_taus"))
   /\ ~(op = "set_out_thetas" /\ I.cfg.nu = 0)
   /\ ~(op = "set_doub_d_tau" /\ "doub_add" \notin I.cfg.solvers)
   /\ ~(op = "set_pade_params" /\ "pade_add" \notin I.cfg.solvers)
   /\ ~(op = "set_sos_params" /\ "sos" \notin I.cfg.solvers)
   /\ ~(op = "set_kernel_func" /\ \A k \in 1..NK(I) : I.cfg.kernels[k] # "user_defined")
   /\ ~(op \in {"set_kernel_params_1", "set_kernel_params_n", "set_kernel_params_l_11", "set_kernel_params_l_1n", "set_kernel_params_l_n1", "set_kernel_params_l_nn"}
        /\ \A k \in 1..NK(I) : NPar(I, k - 1) = 0)}
(* a call that sets one of the inputs still missing *)
MissingOps(I) == LET m == Missing(I) IN
  UNION { CASE x = "coef" -> {"set_coef_1", "set_coef_n"} [] x = "omega" -> {"set_omega_1", "set_omega_n"}
            [] x = "ltau" -> {"set_ltau_1", "set_ltau_n"} [] x = "kernel_params" -> {"set_kernel_params_1", "set_kernel_params_n"}
            [] x = "kernel_funcs" -> {"set_kernel_func"} [] OTHER -> {"set_" \o x} : x \in m }
(* aim a single-element call at an element that is still missing *)
Aim(I, c) ==
  LET at(xs) == {i \in DOMAIN xs : ~IsSet(xs[i])} IN
  CASE c.op = "set_coef_1" /\ at(I.inp.coef) # {} -> [c EXCEPT !.a[1] = R(at(I.inp.coef)) - 1]
    [] c.op = "set_omega_1" /\ at(I.inp.omega) # {} -> [c EXCEPT !.a[1] = R(at(I.inp.omega)) - 1]
    [] c.op = "set_ltau_1" /\ at(I.inp.ltau) # {} -> [c EXCEPT !.a[1] = R(at(I.inp.ltau)) - 1]
    [] c.op = "set_kernel_ampfac" /\ at(I.inp.kamp) # {} -> [c EXCEPT !.a[1] = R(at(I.inp.kamp)) - 1]
    [] c.op = "set_kernel_func" -> LET ks == {k \in 1..NK(I) : I.cfg.kernels[k] = "user_defined" /\ ~IsSet(I.inp.kfun[k])}
                                   IN IF ks # {} THEN [c EXCEPT !.a[1] = R(ks) - 1] ELSE c
    [] c.op \in {"set_kernel_params_n", "set_kernel_params_1"} ->
         LET ks == {k \in 1..NK(I) : at(I.inp.kpar[k]) # {}} IN
         IF ks = {} THEN c ELSE LET k == Pick(R(ks)) IN
           IF c.op = "set_kernel_params_n" THEN [c EXCEPT !.a = <<k - 1, KParVec(I, k - 1)>>]
           ELSE LET p == Pick(R(at(I.inp.kpar[k]))) IN [c EXCEPT !.a = <<k - 1, p - 1, KPar(I.cfg.kernels[k], p)>>]
    [] OTHER -> c
GoodCall(I) ==
  LET m == Pick(MissingOps(I))
      op == Pick(IF m # {} /\ Pct(85) THEN R(m) ELSE R(UsefulOps(I)))
      c == Pick(Cl(op, Args(I, op))) IN
  IF m # {} THEN Pick(Aim(I, c)) ELSE c
BadCall(I) == LET op == Pick(IF Pct(80) THEN R(UsefulOps(I)) ELSE R(AllOps)) IN Pick(Cl(op, EdgeArgs(I, op)))

(* the single elements that are still missing, and calls that set everything
   but one of them *)
MissingElems(I) ==
  LET n == I.inp
      at(nm, xs) == {<<nm, i, 0>> : i \in {j \in DOMAIN xs : ~IsSet(xs[j])}} IN
  {<<x, 0, 0>> : x \in Missing(I) \ {"coef", "omega", "ltau", "kernel_ampfac", "kernel_params", "kernel_funcs"}}
  \cup (IF HasCoef(I) THEN at("coef", n.coef) ELSE {}) \cup at("omega", n.omega) \cup at("ltau", n.ltau) \cup at("kernel_ampfac", n.kamp)
  \cup UNION {{<<"kernel_params", k, p>> : p \in {q \in DOMAIN n.kpar[k] : ~IsSet(n.kpar[k][q])}} : k \in 1..NK(I)}
  \cup {<<"kernel_funcs", k, 0>> : k \in {q \in 1..NK(I) : I.cfg.kernels[q] = "user_defined" /\ ~IsSet(n.kfun[q])}}
RECURSIVE FillBut(_, _, _)
FillBut(I, X, n) ==   \* calls after which exactly the elements X are missing
  IF n = 0 \/ MissingElems(I) \subseteq X THEN <<>>
  ELSE LET c == Pick(GoodCall(I)) J == Pick(Set(I, c)) IN
       IF Accepts(I, c) /\ X \subseteq MissingElems(J) THEN <<c>> \o FillBut(J, X, n - 1) ELSE FillBut(I, X, n - 1)

RandReq(I) ==
  LET sv == Pick(IF I.cfg.solvers = {} \/ (Mode = "reject" /\ Pct(10)) THEN R((Solvers \ I.cfg.solvers) \cup Safe(I.cfg)) ELSE R(Safe(I.cfg)))
      outs == Pick(R(IF (sv = "single" /\ Mode # "reject") \/ Hazard(I.cfg, sv, {"flux"}) THEN {{"radiance"}} ELSE {{"radiance"}, {"radiance"}, {"radiance", "radiance_mean", "flux"}, {"flux"}, {"radiance_mean"}}))
      np == Pick(IF "radiance" \in outs THEN R({1, 2, 3}) ELSE 0) IN
  [solver |-> sv, outs |-> outs, nphi |-> np, phis |-> [u \in 1..NMu(I.cfg) |-> [p \in 1..np |-> R(Phis)]], how |-> 0]
BadReq(I) == LET r == Pick(RandReq(I)) IN
  CASE Pct(30) -> [r EXCEPT !.solver = R((Solvers \ I.cfg.solvers) \cup {r.solver})]
    [] Pct(30) -> [r EXCEPT !.outs = {}, !.nphi = 0, !.phis = [u \in 1..NMu(I.cfg) |-> <<>>]]
    [] Pct(50) -> [r EXCEPT !.outs = {"radiance"}, !.nphi = 0, !.phis = [u \in 1..NMu(I.cfg) |-> <<>>]]
    [] OTHER -> [r EXCEPT !.solver = "single", !.outs = {"flux"}, !.nphi = 0, !.phis = [u \in 1..NMu(I.cfg) |-> <<>>]]

Simple(op, i) == [op |-> op, i |-> i, ok |-> TRUE]
UpdEv(i, I) == [op |-> "update", i |-> i, ok |-> UpdateOK(I)]
SolveEv(i, r, ok) == [op |-> "solve", i |-> i, r |-> r, ok |-> ok]
CreateEv(i, c) == [op |-> "create", i |-> i, c |-> c, ok |-> TRUE]
Fresh == 9
Replay(I, c, r) == <<CreateEv(Fresh, c)>> \o [k \in 1..Len(Canonical(I)) |-> Ev(Fresh, Canonical(I)[k], TRUE)]
                \o (IF Deriv(I) THEN <<Simple("update", Fresh)>> ELSE <<>>)
                \o <<SolveEv(Fresh, r, TRUE), Simple("destroy", Fresh)>>
Plain(c) == [c EXCEPT !.opts = @ \ SaveOptions]
ReplaysFor(I, r) ==
  IF ~(SolveOK(I, r) /\ PatternCurrent(I)) THEN <<>>
  ELSE IF Mode \in {"history", "again"} THEN Replay(I, I.cfg, r) ELSE <<>>
(* Twins: the same calls again, on an instance of their own, after the rest
   of the behaviour.
     reject, complete: without the calls that are refused
     save:             without the options that save, and without resets
     multi:            without the calls on other instances in between *)
TwinEv(e) == LET f == [e EXCEPT !.i = @ + 10] IN
  IF e.op = "create" /\ Mode \in {"save", "saved"} THEN [f EXCEPT !.c = Plain(@)] ELSE f
TwinKeeps(e) == e.ok /\ e.op # "snap" /\ (Mode \in {"save", "saved"} => e.op # "clear")
TwinOf(i) == LET s == SelectSeq(hist, LAMBDA e : e.i = i /\ TwinKeeps(e)) IN
  [k \in DOMAIN s |-> TwinEv(s[k])] \o (IF s # <<>> /\ s[Len(s)].op = "destroy" THEN <<>> ELSE <<Simple("destroy", i + 10)>>)
TwinModes == {"reject", "complete", "save", "saved", "multi"}

Init == S = <<>> /\ hist = <<>> /\ ph = 0

Set1(i, I) == [x \in DOMAIN S \cup {i} |-> IF x = i THEN I ELSE S[x]]
Do(i, I, evs) == S' = Set1(i, I) /\ hist' = hist \o evs /\ ph' = ph + 1

MaySnap(i, c, I) == IF (Mode = "getters") \/ (Mode = "reject" /\ ~Accepts(I, c)) THEN <<Simple("snap", i)>> ELSE <<>>
(* extreme but legal inputs are set and read back, not solved with: grazing
   angles, where the initial layers of the doubling methods are not thin *)
Ordinary(I) == /\ Sensible(I)
  /\ (IsSet(I.inp.theta_0) => I.inp.theta_0[1] < 89000)
  /\ (IsSet(I.inp.out_thetas) => \A u \in DOMAIN I.inp.out_thetas[1] : I.inp.out_thetas[1][u] < 89000)
(* everything but one element, a solve that must be refused, the element, a solve *)
AlmostComplete(i) ==
  \E c \in {Pick(RandCfg(0))} :
   LET I0 == NewInst(Created(c)) IN
   \E x \in {Pick(R(MissingElems(I0)))} :
   \E s1 \in {Pick(FillBut(I0, {x}, 300))} :
   LET I1 == Pick(Fold(I0, s1)) IN
   \E s2 \in {Pick(FillBut(I1, {}, 100))} :
   LET I2 == Pick(Fold(I1, s2))
       I3 == Pick(Update(I2))
       evs(s) == [k \in DOMAIN s |-> Ev(i, s[k], TRUE)]
       upd(I) == IF Deriv(I) THEN <<UpdEv(i, I)>> ELSE <<>> IN
   \E r \in {Pick(RandReq(I0))} :
     Do(i, I3, <<CreateEv(i, c)>> \o evs(s1) \o <<SolveEv(i, r, FALSE)>> \o (IF Pct(50) THEN upd(I1) ELSE <<>>) \o evs(s2)
        \o upd(I2) \o (IF Complete(I2) /\ Ordinary(I2) THEN <<SolveEv(i, r, SolveOK(I3, r))>> ELSE <<>>))
(* ---- lifecycle: create, complete, use again and again, destroy; what
   memory is in use is asked for after every step ---- *)
Mem == Simple("mem", 0)
BadCand(z) ==   \* a request near a legal one
  LET c == Pick(RandCfg(0)) IN
  CASE Pct(12) -> [c EXCEPT !.nl = 0] [] Pct(12) -> [c EXCEPT !.nq = 0] [] Pct(12) -> [c EXCEPT !.ns = 5]
    [] Pct(12) -> [c EXCEPT !.nd = 0, !.opts = @ \cup {"calc_derivs"}] [] Pct(12) -> [c EXCEPT !.nd = 2, !.opts = @ \ {"calc_derivs"}]
    [] Pct(20) -> [c EXCEPT !.opts = @ \cup {R(Options)}] [] Pct(20) -> [c EXCEPT !.opts = @ \ {"output_at_levels", "output_at_taus"}]
    [] Pct(20) -> [c EXCEPT !.max_coef = -1] [] Pct(20) -> [c EXCEPT !.nlev = 0] [] Pct(20) -> [c EXCEPT !.kernels = Append(@, "none"), !.nkq = 4]
    [] Pct(20) -> [c EXCEPT !.nkq = 0, !.kernels = <<"lambertian">>] [] Pct(30) -> [c EXCEPT !.nu = -1]
    [] OTHER -> [c EXCEPT !.solvers = @ \cup {R(Solvers)}]
Refused == 7
CallEv(i, c, I) == Ev(i, c, Accepts(I, c))
GetNames == {"F_iso_top_l", "F_iso_bot_l", "levels_b_l", "surface_b_l", "n_coef", "omega", "ltau", "omega_l", "ltau_l", "coef", "coef_l",
             "kernel", "kernel_ampfac", "kernel_params", "kernel_ampfac_l", "kernel_params_l"}
BadIx1(n) == R({-1, 0, n - 1, n, n + 1, 100000, -2147483647})
GetArgs(I, f) ==
  LET L == BadIx1(I.cfg.nl) D == BadIx1(I.cfg.nd) K == BadIx1(NK(I)) IN
  CASE f \in {"F_iso_top_l", "F_iso_bot_l", "levels_b_l", "surface_b_l"} -> <<D>>
    [] f \in {"n_coef", "omega", "ltau"} -> <<L>>
    [] f \in {"omega_l", "ltau_l"} -> <<L, D>>
    [] f = "coef" -> <<L, BadIx1(NElem(I.cfg)), BadIx1(I.cfg.max_coef)>>
    [] f = "coef_l" -> <<L, D, BadIx1(NElem(I.cfg)), BadIx1(I.cfg.max_coef)>>
    [] f \in {"kernel", "kernel_ampfac"} -> <<K>>
    [] f = "kernel_params" -> <<K, BadIx1(4)>>
    [] f = "kernel_ampfac_l" -> <<K, D>>
    [] f = "kernel_params_l" -> <<K, D, BadIx1(4)>>
GetEv(i, I) == LET f == Pick(R(GetNames)) IN [op |-> "get", i |-> i, f |-> f, a |-> Pick(GetArgs(I, f)), ok |-> TRUE]
Life(i) ==
  IF i \notin Live THEN
    IF Pct(30) THEN \E c \in {Pick(BadCand(0))} :
        /\ S' = S /\ ph' = ph + 1
        /\ hist' = hist \o (IF CreateLegal(c) THEN <<>> ELSE <<[CreateEv(Refused, c) EXCEPT !.ok = FALSE], Mem>>)
    ELSE \E c \in {Pick(RandCfg(0))} :
      LET I0 == NewInst(Created(c)) IN
      \E s1 \in {Pick(IF Pct(85) THEN FillBut(I0, {}, 300) ELSE <<>>)} :
      LET I1 == Pick(Fold(I0, s1))
          I2 == Pick(IF Deriv(I1) THEN Update(I1) ELSE I1) IN
      Do(i, I2, <<CreateEv(i, c), Mem>> \o [k \in DOMAIN s1 |-> Ev(i, s1[k], TRUE)] \o (IF Deriv(I1) THEN <<UpdEv(i, I1)>> ELSE <<>>) \o <<Mem>>)
  ELSE LET I == S[i] IN
  \E k \in {RandomElement(1..100)} :
    IF k <= 12 THEN S' = [x \in DOMAIN S \ {i} |-> S[x]] /\ hist' = hist \o <<Simple("destroy", i), Mem>> /\ ph' = ph + 1
    ELSE IF k <= 25 THEN Do(i, I, <<GetEv(i, I)>>)
    ELSE IF k <= 60 /\ Complete(I) /\ Ordinary(I) /\ (Deriv(I) => PatternCurrent(I)) THEN
      \* a round of solves, several times over
      \E r1 \in {Pick(RandReq(I))} : \E r2 \in {Pick(IF Pct(20) THEN BadReq(I) ELSE RandReq(I))} : \E c1 \in {Pick(GoodCall(I))} :
        LET J == Set(I, c1)
            again == Complete(J) /\ Ordinary(J) /\ PatternCurrent(J)
            upd == IF Deriv(I) THEN <<UpdEv(i, I)>> ELSE <<>>
            back == [n \in DOMAIN Canonical(I) |-> Ev(i, Canonical(I)[n], TRUE)]
            one == <<SolveEv(i, r1, SolveOK(I, r1)), Mem>> \o (IF Pct(50) THEN <<Simple("clear", i), Mem>> ELSE <<>>) \o upd
                   \o (IF again THEN <<CallEv(i, c1, I), SolveEv(i, r2, SolveOK(J, r2)), Mem>> \o back \o upd ELSE <<>>)
        IN Do(i, IF again THEN Pick(Fold(J, Canonical(I))) ELSE I, FlattenSeq([n \in 1..R({3, 4, 6}) |-> one]))
    ELSE IF k <= 64 THEN \E r \in {Pick(RandReq(I))} :
      LET def == Complete(I) => (Ordinary(I) /\ PatternCurrent(I)) IN
      Do(i, I, IF def THEN <<SolveEv(i, r, SolveOK(I, r)), Mem>> ELSE <<>>)
    ELSE IF k <= 68 THEN Do(i, I, <<Simple("clear", i), Mem>>)
    ELSE IF k <= 72 THEN Do(i, Update(I), <<UpdEv(i, I), Mem>>)
    ELSE \E c \in {Pick(IF Pct(50) THEN BadCall(I) ELSE GoodCall(I))} :
      LET J == Set(I, c) J2 == IF ~PatternCurrent(J) THEN Update(J) ELSE J IN
      Do(i, J2, <<CallEv(i, c, I)>> \o (IF ~PatternCurrent(J) THEN <<UpdEv(i, J)>> ELSE <<>>))
(* ---- again: everything set, then one input after the other changed, each
   followed by a solve, mostly the one made before ---- *)
LastReq(i) == LET s == SelectSeq(hist, LAMBDA e : e.op = "solve" /\ e.i = i) IN IF s = <<>> THEN <<>> ELSE <<s[Len(s)].r>>
Retune(I) ==
  LET sc == Range(ScalarOps) \cap UsefulOps(I)
      op == Pick(IF sc # {} /\ Pct(40) THEN R(sc) ELSE R(UsefulOps(I))) IN Pick(Cl(op, Args(I, op)))
Again(i) ==
  IF i \notin Live THEN \E c \in {Pick(RandCfg(0))} :
      LET I0 == NewInst(Created(c)) IN
      \E s1 \in {Pick(FillBut(I0, {}, 300))} :
      LET I1 == Pick(Fold(I0, s1))
          I2 == Pick(IF Deriv(I1) THEN Update(I1) ELSE I1) IN
      \E r \in {Pick(RandReq(I2))} :
      Do(i, I2, <<CreateEv(i, c)>> \o [k \in 1..Len(s1) |-> Ev(i, s1[k], TRUE)] \o (IF Deriv(I1) THEN <<UpdEv(i, I1)>> ELSE <<>>)
           \o (IF Complete(I2) /\ Ordinary(I2) /\ SolveOK(I2, r) THEN <<SolveEv(i, r, TRUE)>> ELSE <<>>))
  ELSE LET I == S[i] IN
  \E k \in {RandomElement(1..100)} :
  IF k <= 3 THEN Do(i, I, <<Simple("clear", i)>>)
  ELSE \E c \in {Pick(IF Complete(I) THEN Retune(I) ELSE GoodCall(I))} :
  LET J == Pick(Set(I, c))
      upd == Deriv(J) /\ ~PatternCurrent(J)
      K == Pick(IF upd THEN Update(J) ELSE J) IN
  \E r \in {Pick(IF LastReq(i) # <<>> /\ k <= 80 THEN LastReq(i)[1] ELSE RandReq(K))} :
    Do(i, K, <<Ev(i, c, Accepts(I, c))>> \o (IF upd THEN <<UpdEv(i, J)>> ELSE <<>>)
       \o (IF Complete(K) /\ Ordinary(K) /\ PatternCurrent(K) THEN <<SolveEv(i, r, SolveOK(K, r))>> \o ReplaysFor(K, r) ELSE <<>>))
Step(i) ==
  IF Mode = "lifecycle" THEN Life(i)
  ELSE IF Mode \in {"again", "saved"} THEN Again(i)
  ELSE IF i \notin Live /\ Mode = "complete" THEN AlmostComplete(i)
  ELSE IF i \in Live /\ Mode = "complete" /\ Pct(40) THEN
      S' = [x \in DOMAIN S \ {i} |-> S[x]] /\ hist' = Append(hist, Simple("destroy", i)) /\ ph' = ph + 1
  ELSE IF i \notin Live THEN \E c \in {Pick(RandCfg(0))} : Do(i, NewInst(Created(c)), <<CreateEv(i, c)>>)
  ELSE
  LET I == S[i] IN
  \E k \in {RandomElement(1..100)} :
    IF Complete(I) /\ k <= 35 /\ Ordinary(I) THEN
      \* solve, after bringing the update up to date most of the time
      \E r \in {Pick(IF Mode = "reject" /\ Pct(30) THEN BadReq(I) ELSE RandReq(I))} :
        LET J == IF Deriv(I) /\ ~PatternCurrent(I) /\ k <= 33 THEN Update(I) ELSE I
            upd == IF Deriv(I) /\ (~PatternCurrent(I) /\ k <= 33) THEN <<UpdEv(i, I)>> ELSE <<>>
            go == J.pattern # <<>> \/ ~Deriv(J)
            ok == PatternCurrent(J) \/ ~go
            snap == IF Mode \in {"getters", "reject"} /\ ok THEN <<Simple("snap", i)>> ELSE <<>>
        IN Do(i, J, upd \o (IF ok THEN <<SolveEv(i, r, SolveOK(J, r))>> \o ReplaysFor(J, r) ELSE <<>>) \o snap)
    ELSE IF ~Complete(I) /\ k <= 4 /\ Mode \in {"reject", "complete"} THEN
      \E r \in {Pick(RandReq(I))} : Do(i, I, <<SolveEv(i, r, FALSE)>> \o (IF Deriv(I) /\ Pct(50) THEN <<UpdEv(i, I)>> ELSE <<>>))
    ELSE IF k > 97 /\ Mode \in {"history", "save", "multi", "getters"} THEN Do(i, I, <<Simple("clear", i)>>)
    ELSE IF k > 95 /\ Complete(I) /\ Mode = "multi" THEN
      /\ S' = [x \in DOMAIN S \ {i} |-> S[x]] /\ hist' = Append(hist, Simple("destroy", i)) /\ ph' = ph + 1
    ELSE IF k > 93 /\ Deriv(I) /\ Mode \in {"history", "save", "reject", "getters", "multi"} THEN Do(i, Update(I), <<UpdEv(i, I)>>)
    ELSE
      \E c \in {Pick(IF (Mode = "reject" /\ Pct(50)) \/ (Mode \in {"history", "multi"} /\ Pct(4)) THEN BadCall(I) ELSE GoodCall(I))} :
        Do(i, Set(I, c), <<Ev(i, c, Accepts(I, c))>> \o MaySnap(i, c, I))

Next ==
  \/ ph < Len1 /\ \E i \in {RandomElement(Slots)} : Step(i)
  \/ ph = Len1 /\ ph' = ph + 1 /\ S' = <<>> /\ hist' = hist \o SetToSeq({Simple("destroy", i) : i \in Live}) \o (IF Mode = "lifecycle" THEN <<Mem>> ELSE <<>>)
        \o (IF Mode \in TwinModes THEN FlattenSeq([k \in 1..3 |-> IF \E e \in Range(hist) : e.i = k - 1 THEN TwinOf(k - 1) ELSE <<>>]) ELSE <<>>)
  \/ ph = Len1 + 1 /\ ph' = ph + 1 /\ PrintT(ToJson(hist)) /\ UNCHANGED <<S, hist>>
(* the replay really reconstructs the instance *)
ReplayFaithful == \A i \in Live : CanonicalOK(S[i])
=============================================================================

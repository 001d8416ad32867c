------------------------------ MODULE XrtmEquiv ------------------------------
(* What answers mean: relations between the answers to related problems.    *)
(* A problem is an instance of the instance specification with all inputs   *)
(* set.  A case is a sequence of problems (variants of one another), each   *)
(* with the requests solved on it, and a sequence of forms: linear forms    *)
(* over blocks of the answers that must vanish (or must not be negative).   *)
(*   form [p, cls, rel, bs: block names, t: terms, sc: scale, known]        *)
(*   term [c: <<num, den>>, f: factors, n: which solve (0: a constant), strip, b,              *)
(*         lv, mu, ph, st, dv: selected indices (<<>> = all)]               *)
(* Factors: <<"exp", tau, theta>> exp(-tau / cos theta), <<"cos", theta>>,  *)
(* <<"pi">>.  The residual of a form, relative to its scale, is evaluated   *)
(* by the harness; XrtmForms judges it.                                     *)
EXTENDS XrtmProgram

(* ---------------- problems ---------------- *)
Zeros(n) == Ones(n, 0)
NoDeriv(I) ==   \* the same problem without derivatives
  [I EXCEPT !.cfg.opts = @ \ {"calc_derivs", "stack_reuse_adding"}, !.cfg.nd = 0,
            !.inp.F_iso_top_l = <<>>, !.inp.F_iso_bot_l = <<>>, !.inp.levels_b_l = <<>>, !.inp.surface_b_l = <<>>,
            !.inp.coef_l = Ones(I.cfg.nl, <<>>), !.inp.omega_l = Ones(I.cfg.nl, <<>>), !.inp.ltau_l = Ones(I.cfg.nl, <<>>),
            !.inp.kamp_l = Ones(NK(I), <<>>), !.inp.kpar_l = Ones(NK(I), <<>>)]
(* the columns cs of the derivatives: a sequence of column numbers *)
Cols(I, cs) ==
  LET m == Len(cs) g(x) == [j \in 1..m |-> x[cs[j]]] IN
  [I EXCEPT !.cfg.nd = m, !.inp.F_iso_top_l = g(@), !.inp.F_iso_bot_l = g(@), !.inp.levels_b_l = g(@), !.inp.surface_b_l = g(@),
            !.inp.coef_l = [i \in DOMAIN @ |-> g(@[i])], !.inp.omega_l = [i \in DOMAIN @ |-> g(@[i])], !.inp.ltau_l = [i \in DOMAIN @ |-> g(@[i])],
            !.inp.kamp_l = [k \in DOMAIN @ |-> g(@[k])], !.inp.kpar_l = [k \in DOMAIN @ |-> g(@[k])]]
(* apply Z(j, v) to every numeric seed v of column j, and C to the sets of coefficients; set d + 10 is twice set d *)
MapSeeds(I, Z(_, _), C(_, _)) ==
  LET nd == I.cfg.nd IN
  [I EXCEPT !.inp.F_iso_top_l = [j \in 1..nd |-> Z(j, @[j])], !.inp.F_iso_bot_l = [j \in 1..nd |-> Z(j, @[j])],
            !.inp.levels_b_l = [j \in 1..nd |-> [i \in DOMAIN @[j] |-> Z(j, @[j][i])]], !.inp.surface_b_l = [j \in 1..nd |-> Z(j, @[j])],
            !.inp.omega_l = [i \in DOMAIN @ |-> [j \in 1..nd |-> Z(j, @[i][j])]], !.inp.ltau_l = [i \in DOMAIN @ |-> [j \in 1..nd |-> Z(j, @[i][j])]],
            !.inp.coef_l = [i \in DOMAIN @ |-> [j \in 1..nd |-> [k \in DOMAIN @[i][j] |-> C(j, @[i][j][k])]]],
            !.inp.kamp_l = [k \in DOMAIN @ |-> [j \in 1..nd |-> Z(j, @[k][j])]],
            !.inp.kpar_l = [k \in DOMAIN @ |-> [j \in 1..nd |-> [p \in DOMAIN @[k][j] |-> Z(j, @[k][j][p])]]]]

SeedV(z) == IF Pct(50) THEN 0 ELSE R({-300, 100, 1000, 400})
Seeded(I) ==
  IF ~Deriv(I) THEN I ELSE
  LET nd == I.cfg.nd nl == I.cfg.nl th == Has(I, "source_thermal")
      (* what kinds of inputs each column varies *)
      kinds == Pick([j \in 1..nd |-> {x \in {"omega", "ltau", "coef", "source", "surface"} : Pct(45)}])
      on(j, x) == x \in kinds[j]
      v(j, x) == IF on(j, x) THEN SeedV(j) ELSE 0
      cv(j) == IF on(j, "coef") /\ Pct(60) THEN R(1..5) ELSE 0 IN
  Pick([I EXCEPT !.inp.F_iso_top_l = [j \in 1..nd |-> v(j, "source")], !.inp.F_iso_bot_l = [j \in 1..nd |-> v(j, "source")],
            !.inp.levels_b_l = [j \in 1..nd |-> [i \in 1..(nl + 1) |-> IF th THEN v(j, "source") ELSE 0]],
            !.inp.surface_b_l = [j \in 1..nd |-> IF th THEN v(j, "source") ELSE 0],
            !.inp.omega_l = [i \in 1..nl |-> [j \in 1..nd |-> v(j, "omega")]],
            !.inp.ltau_l = [i \in 1..nl |-> [j \in 1..nd |-> v(j, "ltau")]],
            !.inp.coef_l = [i \in 1..nl |-> [j \in 1..nd |-> LET c == Pick(cv(j)) IN CoverL(I, i, <<>>, [k \in 1..I.cfg.max_coef |-> c])]],
            !.inp.kamp_l = [k \in 1..NK(I) |-> [j \in 1..nd |-> v(j, "surface")]],
            !.inp.kpar_l = [k \in 1..NK(I) |-> [j \in 1..nd |-> [p \in 1..NPar(I, k - 1) |-> v(j, "surface")]]]])

(* accuracy: all Fourier terms, thin initial layers *)
Tuned(I) == [I EXCEPT !.inp.fourier_tol = <<0>>, !.inp.doub_d_tau = IF IsSet(@) THEN <<1>> ELSE @,
                      !.inp.pade = IF IsSet(@) THEN <<<<2, 5>>>> ELSE @, !.inp.sos = IF IsSet(@) THEN <<<<300, 50, 0>>>> ELSE @]
RandProblem(c) ==
  LET I0 == NewInst(Created(c)) s == Pick(FillBut(I0, {}, 300)) I1 == Pick(Fold(I0, s)) IN
  IF ~Complete(I1) THEN I1 ELSE Pick(Seeded(Tuned(I1)))

(* requests *)
Req(I, sv, outs, phi) == [solver |-> sv, outs |-> outs, nphi |-> IF "radiance" \in outs THEN Len(phi[1]) ELSE 0,
                          phis |-> IF "radiance" \in outs THEN phi ELSE [u \in DOMAIN phi |-> <<>>], how |-> 0]
RandPhis(I, np) == Pick([u \in 1..NMu(I.cfg) |-> [p \in 1..np |-> R(Phis)]])
AllOuts(sv) == IF sv = "single" THEN {"radiance"} ELSE {"radiance", "radiance_mean", "flux"}

BeamApart(I) == Has(I, "source_solar") /\ IsSet(I.inp.out_thetas) => \A u \in DOMAIN I.inp.out_thetas[1] : I.inp.out_thetas[1][u] # I.inp.theta_0[1]
ProblemOK(I) == Complete(I) /\ Ordinary(I) /\ TausOK(I) /\ BeamApart(I)
VariantOK(v) == /\ CreateLegal(v.I.cfg) /\ Complete(v.I) /\ TausOK(v.I)
                /\ (Has(v.I, "output_at_levels") => OutLevelsOK(v.I, v.I.inp.out_levels[1]))
                /\ \A r \in Range(v.rs) : RequestOK(v.I, r) /\ ~Hazard(v.I.cfg, r.solver, r.outs)
Variant(I, rs) == [I |-> I, rs |-> rs, pj |-> 0, pk |-> 0, fd |-> <<>>, sc |-> ""]
(* the layers of I with the forward peak taken out; sc says how (ScaledBy) *)
Rescaled(I, rs, sc) == [I |-> I, rs |-> rs, pj |-> 0, pk |-> 0, fd |-> <<>>, sc |-> sc]
Moved(I, rs, j, k) == [I |-> NoDeriv(I), rs |-> rs, pj |-> j, pk |-> k, B |-> I, fd |-> <<>>, sc |-> ""]
(* the finite difference model on top of a problem: its perturbations are 2^-10 of the seeds of B *)
Differenced(I, rs, fd) == [I |-> NoDeriv(I), rs |-> rs, pj |-> 0, pk |-> 0, B |-> I, fd |-> <<fd>>, sc |-> ""]

(* the calls that move the inputs by k steps along column j *)
PEv(op, a, d, k) == [op |-> op, i |-> 0, a |-> a, d |-> d, k |-> k, ok |-> TRUE]
Moves(I, j, k) ==
  LET n == I.inp nl == I.cfg.nl nz(s) == \E i \in DOMAIN s : s[i] # 0
      vals(x) == [i \in DOMAIN x |-> x[i][1]]
      one(op, v, d) == IF d = 0 THEN <<>> ELSE <<PEv(op, <<v[1]>>, d, k)>>
      many(op, v, d) == IF nz(d) THEN <<PEv(op, <<v>>, d, k)>> ELSE <<>> IN
  one("set_F_iso_top", n.F_iso_top, n.F_iso_top_l[j]) \o one("set_F_iso_bot", n.F_iso_bot, n.F_iso_bot_l[j])
  \o (IF Has(I, "source_thermal") THEN many("set_levels_b", n.levels_b[1], n.levels_b_l[j]) \o one("set_surface_b", n.surface_b, n.surface_b_l[j]) ELSE <<>>)
  \o many("set_omega_n", vals(n.omega), [i \in 1..nl |-> n.omega_l[i][j]])
  \o many("set_ltau_n", vals(n.ltau), [i \in 1..nl |-> n.ltau_l[i][j]])
  (* output at an optical depth within a layer moves with the layer *)
  \o (IF Has(I, "output_at_taus") /\ \E i \in 1..nl : n.ltau_l[i][j] # 0
      THEN <<PEv("set_out_taus", <<n.out_taus[1], vals(n.ltau)>>, [i \in 1..nl |-> n.ltau_l[i][j]], k)>> ELSE <<>>)
  \o (IF \E i \in 1..nl : nz(n.coef_l[i][j]) THEN <<PEv("set_coef_n", <<vals(n.coef)>>, [i \in 1..nl |-> n.coef_l[i][j]], k)>> ELSE <<>>)
  \o Cat([q \in 1..NK(I) |-> (IF n.kamp_l[q][j] = 0 THEN <<>> ELSE <<PEv("set_kernel_ampfac", <<q - 1, n.kamp[q][1]>>, n.kamp_l[q][j], k)>>)
            \o (IF nz(n.kpar_l[q][j]) THEN <<PEv("set_kernel_params_n", <<q - 1, vals(n.kpar[q])>>, n.kpar_l[q][j], k)>> ELSE <<>>)])

(* the finite difference model: fd [delta, calls, ms: methods] *)
Flat(s) == FlattenSeq(s)
FdWant(I, delta) ==   \* what its getters say after all perturbations are set
  LET n == I.inp nd == I.cfg.nd nl == I.cfg.nl IN
  <<nd>> \o delta \o n.F_iso_top_l \o n.F_iso_bot_l
  \o (IF Has(I, "source_thermal") THEN Flat(n.levels_b_l) \o n.surface_b_l ELSE <<>>)
  \o Flat(n.omega_l) \o Flat(n.ltau_l)
  \o Flat([k \in 1..NK(I) |-> n.kamp_l[k] \o Flat(n.kpar_l[k])])
FdEvents(I, r, fd) ==
  <<[op |-> "fd_create", i |-> 0, a |-> fd.delta, ok |-> TRUE]>>
  \o [q \in DOMAIN fd.calls |-> [op |-> fd.calls[q].op, i |-> 0, a |-> fd.calls[q].a, fd |-> TRUE, ok |-> TRUE]]
  \o <<[op |-> "fd_snap", i |-> 0, want |-> FdWant(I, fd.delta), wantc |-> I.inp.coef_l]>>
  \o [q \in DOMAIN fd.ms |-> [op |-> "fd_solve", i |-> 0, m |-> fd.ms[q], r |-> [r EXCEPT !.how = R({0, 1})], ok |-> TRUE]]

(* the calls that give I the scaled layers *)
ScaledBy(I, kind) ==
  LET n == I.inp vals(x) == [i \in DOMAIN x |-> x[i][1]]
      s == [kind |-> kind, coef |-> vals(n.coef), omega |-> vals(n.omega), ltau |-> vals(n.ltau), coef_l |-> n.coef_l, omega_l |-> n.omega_l,
            ltau_l |-> n.ltau_l, taus |-> IF IsSet(n.out_taus) THEN n.out_taus[1] ELSE <<>>]
      c(op) == <<[op |-> op, i |-> 0, scaled |-> s, ok |-> TRUE]>> IN
  c("set_coef_n") \o c("set_omega_n") \o c("set_ltau_n") \o (IF IsSet(n.out_taus) THEN c("set_out_taus") ELSE <<>>)
  \o (IF Deriv(I) THEN c("set_coef_l_nn") \o c("set_omega_l_nn") \o c("set_ltau_l_nn") ELSE <<>>)
VEvents(v) ==
  LET s == Canonical(v.I) IN
  <<CreateEv(0, v.I.cfg)>> \o [q \in DOMAIN s |-> Ev(0, s[q], TRUE)] \o (IF v.pj = 0 THEN <<>> ELSE Moves(v.B, v.pj, v.pk))
  \o (IF v.sc = "" THEN <<>> ELSE ScaledBy(v.I, v.sc))
  \o (IF v.fd = <<>> THEN <<>> ELSE FdEvents(v.B, v.rs[1], v.fd[1]))
  \o (IF Deriv(v.I) THEN <<UpdEv(0, v.I)>> ELSE <<>>) \o [q \in DOMAIN v.rs |-> SolveEv(0, v.rs[q], TRUE)]
  \o (IF v.fd = <<>> THEN <<>> ELSE <<Simple("fd_destroy", 0)>>) \o <<Simple("destroy", 0)>>

(* ---------------- forms ---------------- *)
T(n, num) == [c |-> <<num, 1>>, f |-> <<>>, n |-> n, strip |-> FALSE, b |-> "", lv |-> <<>>, mu |-> <<>>, ph |-> <<>>, st |-> <<>>, dv |-> <<>>]
Dirs(I) == (IF Has(I, "upwelling_output") THEN {"+"} ELSE {}) \cup (IF Has(I, "downwelling_output") THEN {"-"} ELSE {})
OutPrefix == [radiance |-> {"I"}, radiance_mean |-> {"m"}, flux |-> {"f"}]
Blocks(I, r) == {x \o d : x \in UNION {OutPrefix[o] : o \in r.outs} \cup (IF "radiance" \in r.outs /\ Deriv(I) THEN {"dI"} ELSE {}), d \in Dirs(I)}
RadBlocks(I) == {x \o d : x \in {"I"} \cup (IF Deriv(I) THEN {"dI"} ELSE {}), d \in Dirs(I)}
PlainBlocks(I, r) == {x \o d : x \in UNION {OutPrefix[o] : o \in r.outs}, d \in Dirs(I)}
Form(p, cls, svs, bs, t, known) == [op |-> "form", i |-> 0, p |-> p, cls |-> cls, svs |-> svs, rel |-> "eq", bs |-> bs, t |-> t, sc |-> <<>>, known |-> known]
Same(p, cls, sv, bs, a, b, known) == Form(p, cls, {sv}, bs, <<a, b>>, known)   \* terms with coefficients that cancel

(* choose a solver and a request *)
SafeSolvers(I) == {sv \in I.cfg.solvers : ~Hazard(I.cfg, sv, {"radiance"})}

(* ---- P14: linear in the sources ---- *)
Scaled(I, k) ==
  LET s(x) == IF IsSet(x) THEN <<k * x[1]>> ELSE x
      I1 == [I EXCEPT !.inp.F_0 = s(@), !.inp.F_iso_top = s(@), !.inp.F_iso_bot = s(@), !.inp.surface_b = s(@),
              !.inp.levels_b = IF IsSet(@) THEN <<[i \in DOMAIN @[1] |-> k * @[1][i]]>> ELSE @] IN
  [I1 EXCEPT !.inp.F_iso_top_l = [j \in DOMAIN @ |-> k * @[j]], !.inp.F_iso_bot_l = [j \in DOMAIN @ |-> k * @[j]],
             !.inp.surface_b_l = [j \in DOMAIN @ |-> k * @[j]], !.inp.levels_b_l = [j \in DOMAIN @ |-> [i \in DOMAIN @[j] |-> k * @[j][i]]]]
SourceNames == {"solar", "levels", "surface", "top", "bot"}
OnlySource(I, x) ==
  LET z(q, y) == IF q = x THEN y ELSE IF IsSet(y) THEN <<0>> ELSE y
      zl(q, y) == IF q = x THEN y ELSE Zeros(Len(y)) IN
  [I EXCEPT !.inp.F_0 = z("solar", @), !.inp.F_iso_top = z("top", @), !.inp.F_iso_bot = z("bot", @), !.inp.surface_b = z("surface", @),
            !.inp.levels_b = IF x = "levels" \/ ~IsSet(@) THEN @ ELSE <<Zeros(Len(@[1]))>>,
            !.inp.F_iso_top_l = zl("top", @), !.inp.F_iso_bot_l = zl("bot", @), !.inp.surface_b_l = zl("surface", @),
            !.inp.levels_b_l = IF x = "levels" THEN @ ELSE [j \in DOMAIN @ |-> Zeros(Len(@[j]))]]
Without(I, x) == IF x = "solar" THEN [I EXCEPT !.cfg.opts = @ \ {"source_solar"}, !.inp.F_0 = <<>>, !.inp.theta_0 = <<>>, !.inp.phi_0 = <<>>]
                 ELSE [I EXCEPT !.cfg.opts = @ \ {"source_thermal"}, !.inp.levels_b = <<>>, !.inp.surface_b = <<>>, !.inp.lambda = <<>>]
SourcesOf(I) == {"top", "bot"} \cup (IF Has(I, "source_solar") THEN {"solar"} ELSE {}) \cup (IF Has(I, "source_thermal") THEN {"levels", "surface"} ELSE {})
(* a source alone; dr: what is off is left out of the configuration too *)
Alone(I, x, dr) ==
  LET A == OnlySource(I, x)
      B == IF "solar" \in dr /\ x # "solar" /\ Has(I, "source_solar") /\ I.cfg.solvers \cap ({"mem_bvp", "single", "sos", "two_os"} \cup FewStream) = {} THEN Without(A, "solar") ELSE A IN
  IF "thermal" \in dr /\ x \notin {"levels", "surface"} /\ Has(I, "source_thermal") THEN Without(B, "thermal") ELSE B
Bright(I) ==    \* more sources that are on
  LET on(x) == IF IsSet(x) /\ Pct(70) THEN <<R({300, 700, 1000})>> ELSE x IN
  Pick([I EXCEPT !.inp.F_0 = on(@), !.inp.F_iso_top = on(@), !.inp.F_iso_bot = on(@)])
RelP14(I0) ==
  \E I \in {Bright(I0)} : \E sv \in {Pick(R(SafeSolvers(I)))} : \E k \in {Pick(R({2, 3, 7}))} : \E r \in {Pick(Req(I, sv, AllOuts(sv), RandPhis(I, R({1, 2}))))} :
  \E dr \in {Pick(R({{}, {"solar"}, {"thermal"}, {"solar", "thermal"}}))} :
  LET kn == KnownTag("P14", I, r)
      ss == SetToSeq(SourcesOf(I))
      bs == Blocks(I, r)
      vs == <<Variant(I, <<r>>), Variant(Scaled(I, k), <<r>>)>> \o [q \in DOMAIN ss |-> Variant(Alone(I, ss[q], dr), <<r>>)]
            \o <<Variant(Alone(I, "none", dr), <<r>>)>>
      last == Len(ss) + 3 IN
  hist' = [vs |-> vs, fs |-> <<
     Form("P14", "same", {sv}, bs, <<T(1, k), T(2, -1)>>, kn),
     Form("P14", IF dr = {} THEN "sum" ELSE "alg", {sv}, bs, <<T(1, -1)>> \o [q \in DOMAIN ss |-> T(q + 2, 1)], kn),
     [Form("P14", "same", {sv}, bs, <<T(last, 1), T(1, 0)>>, kn) EXCEPT !.sc = <<<<2, 1, 1>>>>] >>]

(* ---- P17: azimuth ---- *)
MapPhis(r, Z(_)) == [r EXCEPT !.phis = [u \in DOMAIN @ |-> [p \in DOMAIN @[u] |-> Z(@[u][p])]]]
RelP17(I) ==
  \E sv \in {Pick(R(SafeSolvers(I)))} : \E k \in {RandomElement(1..4)} : \E d \in {Pick(R({30000, 77000, -45000, 200000}))} :
  \E r \in {Pick(Req(I, sv, AllOuts(sv), RandPhis(I, 3)))} :
  LET kn == KnownTag("P17", I, r)
      solar == Has(I, "source_solar")
      p0 == IF solar THEN I.inp.phi_0[1] ELSE 0
      rb == RadBlocks(I)
      st(t, s) == [t EXCEPT !.st = s]
      az(t, s) == [t EXCEPT !.ph = s] IN
  IF ~solar \/ Has(I, "no_azimuthal") \/ k = 4 THEN
    LET J == IF solar /\ ~Has(I, "no_azimuthal") THEN [I EXCEPT !.inp.theta_0 = <<0>>, !.cfg.nkq = IF NK(I) > 0 THEN 32 ELSE @] ELSE I IN   \* azimuths of the kernels resolved
    hist' = [vs |-> IF BeamApart(J) THEN <<Variant(J, <<r>>)>> ELSE <<>>, fs |-> IF ~BeamApart(J) THEN <<>> ELSE <<Same("P17", "alg", sv, rb, az(T(1, 1), <<0>>), az(T(1, -1), <<1>>), kn),
                                              Same("P17", "alg", sv, rb, az(T(1, 1), <<0>>), az(T(1, -1), <<2>>), kn)>>]
  ELSE IF k = 1 THEN
    hist' = [vs |-> <<Variant(I, <<r>>), Variant([I EXCEPT !.inp.phi_0 = <<p0 + d>>], <<MapPhis(r, LAMBDA x : x + d)>>)>>,
             fs |-> <<Same("P17", "same", sv, Blocks(I, r), T(1, 1), T(2, -1), kn)>>]
  ELSE IF k = 2 THEN
    hist' = [vs |-> <<Variant(I, <<r, MapPhis(r, LAMBDA x : x + 360000)>>), Variant([I EXCEPT !.inp.phi_0 = <<p0 + R({-360000, 360000})>>], <<r>>)>>,
             fs |-> <<Same("P17", "same", sv, Blocks(I, r), T(1, 1), T(2, -1), kn), Same("P17", "same", sv, Blocks(I, r), T(1, 1), T(3, -1), kn)>>]
  ELSE
    hist' = [vs |-> <<Variant(I, <<r, MapPhis(r, LAMBDA x : 2 * p0 - x)>>)>>,
             fs |-> <<Same("P17", "same", sv, rb, st(T(1, 1), SubSeq(<<0, 1>>, 1, IF I.cfg.ns = 1 THEN 1 ELSE 2)), st(T(2, -1), SubSeq(<<0, 1>>, 1, IF I.cfg.ns = 1 THEN 1 ELSE 2)), kn)>>
               \o (IF I.cfg.ns < 3 THEN <<>> ELSE LET s == SubSeq(<<2, 3>>, 1, I.cfg.ns - 2) IN <<Same("P17", "same", sv, rb, st(T(1, 1), s), st(T(2, 1), s), kn)>>)]

(* ---- P13: derivative columns ---- *)
RelP13(I) ==
  \E sv \in {Pick(R(SafeSolvers(I)))} : \E k \in {RandomElement(1..3)} : \E j \in {Pick(R(1..I.cfg.nd))} :
  \E r \in {Pick(Req(I, sv, AllOuts(sv), RandPhis(I, R({1, 2}))))} :
  LET kn == KnownTag("P13", I, r)
      nd == I.cfg.nd
      db == {"dI" \o d : d \in Dirs(I)}
      dv(t, s) == [t EXCEPT !.dv = s] IN
  IF k = 1 THEN   \* one column alone, and no derivatives at all
    LET rev == [q \in 1..nd |-> nd + 1 - q] IN
    hist' = [vs |-> <<Variant(I, <<r>>), Variant(NoDeriv(I), <<r>>), Variant(Cols(I, <<j>>), <<r>>), Variant(Cols(I, rev), <<r>>)>>,
      fs |-> <<Same("P13", "alg", sv, PlainBlocks(I, r), T(1, 1), T(2, -1), kn),
               Same("P13", "alg", sv, db, dv(T(1, 1), <<j - 1>>), T(3, -1), kn),
               Same("P13", "alg", sv, db, T(1, 1), dv(T(4, -1), [q \in 1..nd |-> nd - q]), kn)>>]
  ELSE IF k = 2 THEN  \* columns: j, 2 j, 0
    LET A == Cols(I, <<j, j, j>>)
        B == MapSeeds(A, LAMBDA q, x : IF q = 2 THEN 2 * x ELSE IF q = 3 THEN 0 ELSE x, LAMBDA q, x : IF q = 3 \/ x = 0 THEN 0 ELSE IF q = 2 THEN x + 10 ELSE x) IN
    hist' = [vs |-> <<Variant(B, <<r>>), Variant(I, <<r>>)>>,
      fs |-> <<Same("P13", "alg", sv, db, dv(T(1, 2), <<0>>), dv(T(1, -1), <<1>>), kn),
               [Same("P13", "alg", sv, db, dv(T(1, 1), <<2>>), dv(T(1, 0), <<0>>), kn) EXCEPT !.sc = <<<<2, 1, 1>>>>],
               Same("P13", "alg", sv, PlainBlocks(I, r), T(1, 1), T(2, -1), kn)>>]
  ELSE   \* a column is the sum of its kinds of seeds: first column all, second only scattering and thickness, third the rest
    LET A == Cols(I, <<j, j, j>>)
        lay(m, q) == [i \in DOMAIN m |-> [m[i] EXCEPT ![q] = 0]]
        B == [A EXCEPT !.inp.omega_l = lay(@, 3), !.inp.ltau_l = lay(@, 3), !.inp.coef_l = [i \in DOMAIN @ |-> [@[i] EXCEPT ![3] = Zeros(I.cfg.max_coef)]],
               !.inp.F_iso_top_l[2] = 0, !.inp.F_iso_bot_l[2] = 0, !.inp.surface_b_l[2] = 0, !.inp.levels_b_l[2] = Zeros(I.cfg.nl + 1),
               !.inp.kamp_l = lay(@, 2), !.inp.kpar_l = [q \in DOMAIN @ |-> [@[q] EXCEPT ![2] = Zeros(NPar(I, q - 1))]]] IN
    hist' = [vs |-> <<Variant(B, <<r>>)>>,
      fs |-> <<Form("P13", "alg", {sv}, db, <<dv(T(1, 1), <<0>>), dv(T(1, -1), <<1>>), dv(T(1, -1), <<2>>)>>, kn)>>]

(* ---- P12: derivatives are limits ---- *)
(* moved values must be legal: away from the ends of the ranges *)
Inner(I) ==
  LET up(x, v) == IF IsSet(x) /\ x[1] = 0 THEN <<v>> ELSE x IN
  [I EXCEPT !.inp.F_iso_top = up(@, 300), !.inp.F_iso_bot = up(@, 500), !.inp.surface_b = up(@, 400),
            !.inp.levels_b = IF IsSet(@) THEN <<[i \in DOMAIN @[1] |-> IF @[1][i] = 0 THEN 200 ELSE @[1][i]]>> ELSE @,
            !.inp.omega = [i \in DOMAIN @ |-> IF I.inp.omega_l[i] = Zeros(I.cfg.nd) THEN @[i] ELSE IF @[i][1] \in {0, 1000} THEN <<(@[i][1] * 4 + 100) \div 5>> ELSE @[i]],
            (* most without layers whose eigenvalues coincide (equal_eigenvalues) *)
            !.inp.coef = IF Has(I, "vector") /\ Pct(85) THEN [i \in DOMAIN @ |-> IF IsSet(@[i]) /\ @[i][1].id % 10 \in {1, 2} THEN <<[@[i][1] EXCEPT !.id = @ + 2]>> ELSE @[i]] ELSE @,
            (* the number of parts sos divides a layer into stays as it is *)
            !.inp.sos = IF IsSet(@) THEN <<<<300, IF Has(I, "delta_m") THEN 10000 ELSE 41, 0>>>> ELSE @,
            !.inp.kamp = [k \in DOMAIN @ |-> IF I.inp.kamp_l[k] = Zeros(I.cfg.nd) THEN @[k] ELSE up(@[k], 200)]]
(* a small planet, a low sun, and the layer at the top moves: the slant paths of the layers below it move strongly *)
Curved(I) == IF ~(Has(I, "psa") /\ Has(I, "source_solar") /\ Pct(60)) THEN I ELSE
  [I EXCEPT !.inp.planet_r = <<200000>>, !.inp.theta_0 = <<74000>>, !.inp.ltau_l[1] = [j \in 1..I.cfg.nd |-> 400],
            !.inp.levels_z = <<[i \in 1..(I.cfg.nl + 1) |-> 9000 * (I.cfg.nl + 1 - i)]>>]
RelP12(I0) ==
  \E I \in {Curved(Inner(I0))} :
  \E sv \in {Pick(R(SafeSolvers(I)))} : \E j \in {Pick(R(1..I.cfg.nd))} : \E r \in {Pick(Req(I, sv, {"radiance"}, RandPhis(I, 1)))} :
  LET kn == KnownTag("P12", I, r)
      db == {"dI" \o d : d \in Dirs(I)}
      s(t) == [t EXCEPT !.strip = TRUE]
      (* overlap of shadows: the parameters of these kernels have kinks *)
      cls == IF \E q \in 1..NK(I) : I.cfg.kernels[q] \in {"li_sparse", "li_dense"} /\ I.inp.kpar_l[q][j] # Zeros(NPar(I, q - 1)) THEN "kinked" ELSE "limit" IN
  hist' = [vs |-> <<Variant(I, <<r>>), Moved(I, <<r>>, j, 1), Moved(I, <<r>>, j, -1), Moved(I, <<r>>, j, 2), Moved(I, <<r>>, j, -2)>>,
    fs |-> <<[Form("P12", cls, {sv}, db, <<[T(1, -12) EXCEPT !.dv = <<j - 1>>], s(T(2, 8192)), s(T(3, -8192)), s(T(4, -1024)), s(T(5, 1024))>>, kn)
             EXCEPT !.sc = <<<<1, 1, 1>>, <<2, 1, 100 * 8192>>>>]>>]

(* ---- P11: solvers agree ---- *)
Lossless(I) == [I EXCEPT !.cfg.kernels = <<"lambertian">>, !.cfg.nkq = 4, !.inp.kamp = <<<<1000>>>>, !.inp.kpar = <<<<>>>>, !.inp.kfun = <<<<>>>>,
                         !.inp.kamp_l = <<>>, !.inp.kpar_l = <<>>]
(* only this quadrature integrates an isotropic field exactly *)
Doubled(I) == [I EXCEPT !.cfg.opts = (@ \ {"quad_norm_gaus_leg", "quad_lobatto"}) \cup {"quad_doub_gaus_leg"}]
Dim(I) == IF NK(I) = 0 THEN I ELSE [Lossless(I) EXCEPT !.inp.kamp = <<<<300>>>>, !.inp.kamp_l = <<Zeros(I.cfg.nd)>>, !.inp.kpar_l = <<[j \in 1..I.cfg.nd |-> <<>>]>>]
Exact == {"doub_add", "eig_add", "eig_bvp", "mem_bvp", "pade_add", "sos", "two_stream", "four_stream", "six_stream"}
DerivBlocks(I) == IF Deriv(I) THEN {"dI" \o d : d \in Dirs(I)} ELSE {}
RelP11(I0) ==
  (* the few stream solvers know the solar beam only, and surfaces without the
     normalisation that other quadratures need; successive orders converge
     slowly or not at all on surfaces that reflect more than arrives *)
  \E auto \in {"pade_add" \in SafeSolvers(I0) /\ Pct(25)} :   \* the Pade parameters that the solver chooses
  \E I1 \in {LET X == SafeSolvers(I0) A == IF (auto \/ "sos" \in X) /\ NK(I0) > 0 THEN Dim(Inner(I0)) ELSE Inner(I0) IN
              IF X \cap FewStream = {} THEN A ELSE Doubled([A EXCEPT !.inp.F_iso_top = <<0>>, !.inp.F_iso_bot = <<0>>])} :
  \E I \in {[I1 EXCEPT !.inp.sos = IF IsSet(@) THEN <<<<300, 50, 0>>>> ELSE @,
                     !.inp.pade = IF auto THEN <<<<-1, -1>>>> ELSE @]} :
  \E ss \in {Pick(SetToSeq(SafeSolvers(I) \cap Exact))} : \E phs \in {RandPhis(I, R({1, 2}))} :
  LET rs == [q \in DOMAIN ss |-> Req(I, ss[q], {"radiance", "radiance_mean", "flux"}, phs)]
      ref == IF "eig_bvp" \in Range(ss) THEN CHOOSE q \in DOMAIN ss : ss[q] = "eig_bvp" ELSE IF "eig_add" \in Range(ss) THEN CHOOSE q \in DOMAIN ss : ss[q] = "eig_add" ELSE 1
      kn(q) == MoreTag(KnownTag("P11", I, rs[q]), KnownTag("P11", I, rs[ref]))
      bs == Blocks(I, rs[1]) \ DerivBlocks(I)
      others == SelectSeq([q \in DOMAIN ss |-> q], LAMBDA q : q # ref)
      form(cls, q, b) == Form("P11", IF auto /\ "pade_add" \in {ss[others[q]], ss[ref]} THEN "auto" \o cls ELSE cls, {ss[others[q]], ss[ref]}, b, <<T(others[q], 1), T(ref, -1)>>, kn(others[q])) IN
  (* in the limit of thin layers above a black surface single scattering is
     all there is, up to the second order, which two_os adds *)
  \E ap \in {SafeSolvers(I) \cap {"single", "two_os"}} :
  \E J \in {[I EXCEPT !.inp.ltau = [i \in 1..I.cfg.nl |-> <<1>>], !.inp.F_iso_top = <<0>>, !.inp.F_iso_bot = <<0>>, !.inp.kamp = [k \in DOMAIN @ |-> <<0>>],
                      !.inp.coef = IF Has(I, "n_t_tms") THEN @ ELSE [i \in DOMAIN @ |-> <<[@[i][1] EXCEPT !.n = LET m == 2 * I.cfg.nq IN IF @ < m THEN @ ELSE m]>>],
                      !.inp.out_taus = IF IsSet(@) THEN <<[l \in DOMAIN @[1] |-> IF @[1][l] = 0 THEN 0 ELSE I.cfg.nl]>> ELSE @]} :
  LET of(sv) == [rs[ref] EXCEPT !.solver = sv, !.outs = {"radiance"}]
      n == Len(rs) kt(sv) == MoreTag(KnownTag("P11", J, of(sv)), KnownTag("P11", J, of(ss[ref])))
      bb == RadBlocks(I) \ DerivBlocks(I)
      thin == Form("P11", "thin", {"single", ss[ref]}, bb, <<T(n + 2, 1), T(n + 1, -1)>>, kt("single"))
      thin2 == [Form("P11", "thin2", {"two_os", "single", ss[ref]}, bb \ {"I-"}, <<T(n + 3, 1), T(n + 2, 1), T(n + 1, -1)>>, kt("two_os")) EXCEPT !.sc = <<<<1, 1, 1>>, <<2, 1, 10000>>>>] IN
  hist' = [vs |-> <<Variant(I, rs)>> \o (IF "single" \notin ap THEN <<>> ELSE <<Variant(J, <<of(ss[ref]), of("single")>> \o (IF "two_os" \in ap THEN <<of("two_os")>> ELSE <<>>))>>),
           fs |-> (IF "single" \notin ap THEN <<>> ELSE <<thin>> \o (IF "two_os" \in ap THEN <<thin2>> ELSE <<>>)) \o
                  [q \in DOMAIN others |-> form("solver", q, bs)] \o (IF auto \/ DerivBlocks(I) = {} THEN <<>> ELSE [q \in DOMAIN others |-> form("dsolver", q, DerivBlocks(I))])]

RECURSIVE Cum(_, _)
Cum(I, l) == IF l = 0 THEN 0 ELSE Cum(I, l - 1) + I.inp.ltau[l][1]   \* optical depth of a level

(* ---- P23: difference quotients ---- *)
(* calls that set every perturbation, in any shape; some set others first *)
FdScal(x, v) == IF Mode = "P21" \/ Pct(50) THEN <<Cl("set_" \o x \o "_l_n", <<v>>)>> ELSE [j \in DOMAIN v |-> Cl("set_" \o x \o "_l_1", <<j - 1, v[j]>>)]
FdGrid(x, v, nl, nd) ==   \* v[layer][column]
  LET k == Pick(R(1..4)) IN
  CASE k = 1 -> <<Cl("set_" \o x \o "_l_nn", <<v>>)>>
    [] k = 2 -> [i \in 1..nl |-> Cl("set_" \o x \o "_l_1n", <<i - 1, v[i]>>)]
    [] k = 3 -> [j \in 1..nd |-> Cl("set_" \o x \o "_l_n1", <<j - 1, [i \in 1..nl |-> v[i][j]]>>)]
    [] OTHER -> Flat([i \in 1..nl |-> [j \in 1..nd |-> Cl("set_" \o x \o "_l_11", <<i - 1, j - 1, v[i][j]>>)]])
FdCalls(I) ==
  LET n == I.inp nl == I.cfg.nl nd == I.cfg.nd IN
  FdScal("F_iso_top", n.F_iso_top_l) \o FdScal("F_iso_bot", n.F_iso_bot_l)
  \o (IF Has(I, "source_thermal") THEN
         (IF Mode = "P21" \/ Pct(50) THEN <<Cl("set_levels_b_l_n", <<n.levels_b_l>>)>> ELSE [j \in 1..nd |-> Cl("set_levels_b_l_1", <<j - 1, n.levels_b_l[j]>>)])
         \o FdScal("surface_b", n.surface_b_l) ELSE <<>>)
  \o FdGrid("omega", n.omega_l, nl, nd) \o FdGrid("ltau", n.ltau_l, nl, nd)
  \o FdGrid("coef", n.coef_l, nl, nd)
  \o Flat([k \in 1..NK(I) |->
       (IF Pct(50) THEN <<Cl("set_kernel_ampfac_l_n", <<k - 1, n.kamp_l[k]>>)>> ELSE [j \in 1..nd |-> Cl("set_kernel_ampfac_l_1", <<k - 1, j - 1, n.kamp_l[k][j]>>)])
       \o (LET np == NPar(I, k - 1) w == Pick(R(1..4)) IN
           CASE np = 0 -> <<>>
             [] w = 1 -> <<Cl("set_kernel_params_l_nn", <<k - 1, n.kpar_l[k]>>)>>
             [] w = 2 -> [j \in 1..nd |-> Cl("set_kernel_params_l_1n", <<k - 1, j - 1, n.kpar_l[k][j]>>)]
             [] w = 3 -> [p \in 1..np |-> Cl("set_kernel_params_l_n1", <<k - 1, p - 1, [j \in 1..nd |-> n.kpar_l[k][j][p]]>>)]
             [] OTHER -> Flat([j \in 1..nd |-> [p \in 1..np |-> Cl("set_kernel_params_l_11", <<k - 1, j - 1, p - 1, n.kpar_l[k][j][p]>>)]]))])
(* a layer that gets thinner would leave a depth at the bottom outside *)
DepthsInside(I) == ~Has(I, "output_at_taus") \/ ~IsSet(I.inp.out_taus) \/ \A q \in DOMAIN I.inp.out_taus[1] : I.inp.out_taus[1][q] < Cum(I, I.cfg.nl)
RelP23(I0) ==
  \E I \in {J \in {Inner(I0)} : DepthsInside(J)} :
  \E sv \in {Pick(R(SafeSolvers(I)))} : \E r \in {Pick(Req(I, sv, {"radiance"}, RandPhis(I, R({1, 2}))))} :
  \E other \in {Pick(Seeded(I))} :
  \E fd \in {[delta |-> Pick([j \in 1..I.cfg.nd |-> R({512, 1024, 4096})]),
               calls |-> Pick((IF Pct(50) THEN FdCalls(other) ELSE <<>>) \o FdCalls(I)),
               ms |-> Pick([q \in 1..R({1, 2}) |-> R({0, 1, 2})])]} :
  LET nd == I.cfg.nd
      B == [I EXCEPT !.cfg.opts = @ \ {"output_at_taus"}]   \* the depths asked for stay where they are
      s(t) == [t EXCEPT !.strip = TRUE]
      db == {"dI" \o d : d \in Dirs(I)}
      m0 == Len(fd.ms)
      mv(r0, j, k) == [Moved(B, <<r0>>, j, k) EXCEPT !.I = NoDeriv(I)]
      at(j, k) == m0 + 1 + 2 * (j - 1) + (IF k = 1 THEN 1 ELSE 2)   \* which solve
      kn == KnownTag("P23", NoDeriv(I), r)
      quot(q, j) == <<[T(q, fd.delta[j]) EXCEPT !.c = <<fd.delta[j], 1048576>>, !.dv = <<j - 1>>]>> \o
        (CASE fd.ms[q] = 0 -> <<s(T(at(j, 1), -1)), s(T(m0 + 1, 1))>>
           [] fd.ms[q] = 1 -> <<s(T(m0 + 1, -1)), s(T(at(j, -1), 1))>>
           [] fd.ms[q] = 2 -> <<s(T(at(j, 1), -1)), s(T(at(j, -1), 1))>>) IN
  hist' = [vs |-> <<Differenced(I, <<r>>, fd)>> \o Flat([j \in 1..nd |-> <<mv(r, j, 1), mv(r, j, -1)>>]),
           fs |-> Flat([q \in 1..m0 |->
                    <<Same("P23", "same", sv, RadBlocks(NoDeriv(I)), T(q, 1), T(m0 + 1, -1), kn)>> \o
                    [j \in 1..nd |-> Form("P23", "quotient", {sv}, db, quot(q, j), kn)]])]

(* ---- P10: what is asked for ---- *)
RECURSIVE RandSeq(_, _)
RandSeq(X, n) == IF n = 0 \/ X = {} THEN <<>> ELSE LET x == Pick(R(X)) IN <<x>> \o RandSeq(X \ {x}, n - 1)
RandPart(n, ordered) == LET s == Pick(RandSeq(1..n, R(1..n))) IN IF ordered THEN SetToSortSeq(Range(s), <) ELSE s
Part(s, ix) == [q \in DOMAIN ix |-> s[ix[q]]]
Zero(ix) == [q \in DOMAIN ix |-> ix[q] - 1]   \* positions in an answer
HowOf(x) == CASE x = "radiance" -> 1 [] x = "radiance_mean" -> 2 [] x = "flux" -> 3
Only(r, X) == [r EXCEPT !.outs = X, !.nphi = IF "radiance" \in X THEN @ ELSE 0, !.phis = IF "radiance" \in X THEN @ ELSE [u \in DOMAIN @ |-> <<>>]]
RelP10(I0) ==
  \* a series that ends, or has only one term for a view of the nadir, is compared with a full one: few quadrature
  \* points for the kernels make terms that are not there
  \E k \in {Pick(R(1..9))} : \E I \in {[I0 EXCEPT !.cfg.nkq = IF NK(I0) > 0 /\ k \in {4, 8} THEN 32 ELSE @]} :
  \E sv \in {Pick(R(SafeSolvers(I)))} : \E r \in {Pick(Req(I, sv, AllOuts(sv), RandPhis(I, R({1, 2, 3}))))} :
  \E x \in {Pick(R(r.outs))} : \E h \in {Pick(HowOf(x))} :
  \E tol \in {Pick(R({1, 1, 10}))} : \E az2 \in {Pick(R({<<90000>>, <<-90000>>, <<45000>>, <<90000, -90000>>, <<30000, 150000, 90000>>}))} : \E fc \in {Pick(R({"four_conv_old", "four_conv_new"}))} :
  \E ip \in {Pick(RandPart(r.nphi, FALSE))} : \E il \in {Pick(RandPart(I.cfg.nlev, TRUE))} : \E iu \in {Pick(RandPart(NMu(I.cfg), FALSE))} :
  \E X \in {Pick(R((SUBSET r.outs) \ {{}}))} : \E d \in {Pick(R(Dirs(I)))} :
  LET kn == KnownTag("P10", I, r)
      same(bs, a, b) == <<Same("P10", "alg", sv, bs, a, b, kn)>>
      lv(t, s) == [t EXCEPT !.lv = s] mu(t, s) == [t EXCEPT !.mu = s] az(t, s) == [t EXCEPT !.ph = s] IN
  CASE k = 1 ->   \* one quantity, through its own call
         LET q == [Only(r, {x}) EXCEPT !.how = h] IN
         hist' = [vs |-> <<Variant(I, <<r>>), Variant(I, <<q>>)>>, fs |-> same(Blocks(I, Only(r, {x})), T(1, 1), T(2, -1))]
    [] k = 2 ->   \* fewer quantities
         hist' = [vs |-> <<Variant(I, <<r>>), Variant(I, <<Only(r, X)>>)>>, fs |-> same(Blocks(I, Only(r, X)), T(1, 1), T(2, -1))]
    [] k = 3 \/ (k = 4 /\ I.cfg.nu = 0) ->   \* fewer levels or depths
         LET J == [I EXCEPT !.cfg.nlev = Len(il), !.inp.out_levels = IF IsSet(@) THEN <<Part(@[1], il)>> ELSE @, !.inp.out_taus = IF IsSet(@) THEN <<Part(@[1], il)>> ELSE @] IN
         hist' = [vs |-> <<Variant(I, <<r>>), Variant(J, <<r>>)>>,
                  fs |-> <<Same("P10", "alg", sv, Blocks(I, r), lv(T(1, 1), Zero(il)), T(2, -1), MoreTag(kn, KnownTag("P10", J, r)))>>]
    [] k = 4 ->   \* fewer angles in another order
         LET J == [I EXCEPT !.cfg.nu = Len(iu), !.inp.out_thetas = <<Part(@[1], iu)>>]
             q == [r EXCEPT !.phis = Part(@, iu)] IN
         hist' = [vs |-> <<Variant(I, <<r>>), Variant(J, <<q>>)>>,
                  fs |-> same(RadBlocks(I), mu(T(1, 1), Zero(iu)), T(2, -1)) \o same(Blocks(I, r) \ RadBlocks(I), T(1, 1), T(2, -1))]
    [] k = 5 ->   \* fewer azimuths in another order
         LET q == [r EXCEPT !.nphi = Len(ip), !.phis = [u \in DOMAIN @ |-> Part(@[u], ip)]] IN
         hist' = [vs |-> <<Variant(I, <<r>>), Variant(I, <<q>>)>>,
                  fs |-> same(RadBlocks(I), az(T(1, 1), Zero(ip)), T(2, -1)) \o same(Blocks(I, r) \ RadBlocks(I), T(1, 1), T(2, -1))]
    [] k = 6 \/ (k = 7 /\ I.cfg.nu = 0) ->   \* one direction
         LET J == [I EXCEPT !.cfg.opts = (@ \ {"upwelling_output", "downwelling_output"}) \cup {IF d = "+" THEN "upwelling_output" ELSE "downwelling_output"}] IN
         hist' = [vs |-> <<Variant(I, <<r>>), Variant(J, <<r>>)>>, fs |-> same(Blocks(J, r), T(1, 1), T(2, -1))]
    [] k \in {8, 9} ->   \* the series of azimuth modes ended when it has converged, and single scattering in the series or apart
         LET J == [I EXCEPT !.cfg.opts = (@ \ {"four_conv_old", "four_conv_new"}) \cup {IF fc = "four_conv_new" /\ "n_t_tms" \in @ THEN "four_conv_new" ELSE "four_conv_old"},
                            !.inp.fourier_tol = <<IF k = 8 THEN tol ELSE 0>>]
             K == MoreTag(kn, KnownTag("P10", J, r))
             at == IF IsSet(I.inp.phi_0) THEN I.inp.phi_0[1] ELSE 0
             s == IF k = 9 \/ r.nphi = 0 \/ h = 2 THEN r ELSE [r EXCEPT !.nphi = Len(az2), !.phis = [u \in DOMAIN @ |-> [q \in DOMAIN az2 |-> (at + az2[q]) % 360000]]] IN
         LET other == [J EXCEPT !.cfg.opts = (@ \ {fc}) \cup {IF fc = "four_conv_old" THEN "four_conv_new" ELSE "four_conv_old"}]
             both == k = 8 /\ Deriv(I) /\ Has(I, "n_t_tms") IN
         hist' = [vs |-> <<Variant(I, <<s>>), Variant(J, <<s>>)>> \o (IF both THEN <<Variant(other, <<s>>)>> ELSE <<>>),
                  fs |-> IF k = 9 THEN same(Blocks(I, r), T(1, 1), T(2, -1)) ELSE
                          <<Same("P10", "fourier", sv, RadBlocks(I) \ DerivBlocks(I), T(1, 1), T(2, -1), K), Same("P10", "alg", sv, Blocks(I, r) \ RadBlocks(I), T(1, 1), T(2, -1), K)>>
                              \* the derivatives have no part in ending the series
                              \o (IF both THEN <<Same("P10", "dfourier", sv, DerivBlocks(I), T(2, 1), T(3, -1), MoreTag(K, KnownTag("P10", other, r)))>> ELSE <<>>)]
    [] OTHER ->   \* no angles of the user
         LET J == [I EXCEPT !.cfg.nu = 0, !.cfg.opts = @ \ {"sfi"}, !.inp.out_thetas = <<>>]
             q == Only(r, r.outs \ {"radiance"}) IN
         hist' = [vs |-> IF "sfi" \in I.cfg.opts \/ q.outs = {} THEN <<Variant(I, <<r>>)>> ELSE <<Variant(I, <<r>>), Variant(J, <<q>>)>>,
                  fs |-> IF "sfi" \in I.cfg.opts \/ q.outs = {} THEN <<>> ELSE same(PlainBlocks(I, q), T(1, 1), T(2, -1))]

(* ---- P15: layers ---- *)
Dup(s, q) == SubSeq(s, 1, q) \o <<s[q]>> \o SubSeq(s, q + 1, Len(s))
Mid(s, q) == SubSeq(s, 1, q) \o <<(s[q] + s[q + 1]) \div 2>> \o SubSeq(s, q + 1, Len(s))
EvenLayer(I, q) == [I EXCEPT !.inp.ltau[q] = <<2 * ((@[1] + 1) \div 2)>>]
Cut(I, q) ==
  LET half(s) == [x \in DOMAIN s |-> s[x] \div 2] IN
  [I EXCEPT !.cfg.nl = @ + 1,
     !.inp.coef = Dup(@, q), !.inp.omega = Dup(@, q), !.inp.coef_l = Dup(@, q), !.inp.omega_l = Dup(@, q),
     !.inp.ltau = LET s == Dup(@, q) IN [i \in DOMAIN s |-> IF i \in {q, q + 1} THEN <<s[i][1] \div 2>> ELSE s[i]],
     !.inp.ltau_l = LET s == Dup(@, q) IN [i \in DOMAIN s |-> IF i \in {q, q + 1} THEN half(s[i]) ELSE s[i]],
     !.inp.levels_b = IF IsSet(@) THEN <<Mid(@[1], q)>> ELSE @, !.inp.levels_b_l = [j \in DOMAIN @ |-> Mid(@[j], q)],
     !.inp.out_levels = IF IsSet(@) THEN <<[l \in DOMAIN @[1] |-> IF @[1][l] >= q THEN @[1][l] + 1 ELSE @[1][l]]>> ELSE @]
AtTaus(I, taus) == [I EXCEPT !.cfg.opts = (@ \ {"output_at_levels"}) \cup {"output_at_taus"}, !.cfg.nlev = Len(taus), !.inp.out_levels = <<>>, !.inp.out_taus = <<taus>>]
AtLevels(I, ls) == [I EXCEPT !.cfg.opts = (@ \ {"output_at_taus"}) \cup {"output_at_levels"}, !.cfg.nlev = Len(ls), !.inp.out_taus = <<>>, !.inp.out_levels = <<ls>>]
RelP15(I0) ==
  \E q \in {Pick(R(1..I0.cfg.nl))} : \E k \in {Pick(R(1..3))} :
  \E I \in {EvenLayer(I0, q)} : \E sv \in {Pick(R(SafeSolvers(I)))} : \E r \in {Pick(Req(I, sv, AllOuts(sv), RandPhis(I, R({1, 2}))))} :
  \E ls \in {Pick(RandLevels(I))} :
  LET kn == KnownTag("P15", I, r)
      ts == [l \in DOMAIN ls |-> Cum(I, ls[l])]
      A == AtLevels(I, ls) B == AtTaus(I, ts) IN
  IF (k = 1 \/ "output_at_taus" \in Excluded(I.cfg.opts \cup {"output_at_taus"}, I.cfg)) /\ ~Has(I, "psa") THEN
    hist' = [vs |-> <<Variant(I, <<r>>), Variant(Cut(I, q), <<r>>)>>, fs |-> <<Same("P15", "cut", sv, Blocks(I, r), T(1, 1), T(2, -1), kn)>>]
  ELSE IF k = 2 \/ Has(I, "psa") THEN
    hist' = [vs |-> <<Variant(A, <<r>>), Variant(B, <<r>>)>>, fs |-> <<Same("P15", "cut", sv, Blocks(I, r), T(1, 1), T(2, -1), kn)>>]
  ELSE
    hist' = [vs |-> <<Variant(AtTaus(I, <<Cum(I, q - 1) + I.inp.ltau[q][1] \div 2>>), <<r>>), Variant(AtLevels(Cut(I, q), <<q>>), <<r>>)>>,
             fs |-> <<Same("P15", "cut", sv, Blocks(I, r), T(1, 1), T(2, -1), kn)>>]

(* ---- P16: surface kernels ---- *)
Kerneled(I, Z(_)) == [I EXCEPT !.cfg.kernels = Z(@), !.inp.kamp = Z(@), !.inp.kpar = Z(@), !.inp.kfun = Z(@), !.inp.kamp_l = Z(@), !.inp.kpar_l = Z(@)]
AddKernel(I, k, pars) ==
  [I EXCEPT !.cfg.kernels = Append(@, k), !.inp.kamp = Append(@, <<0>>), !.inp.kpar = Append(@, [p \in 1..NParams(k) |-> <<pars[p]>>]),
            !.inp.kfun = Append(@, IF k = "user_defined" THEN <<1>> ELSE <<>>), !.inp.kamp_l = Append(@, Zeros(I.cfg.nd)),
            !.inp.kpar_l = Append(@, [j \in 1..I.cfg.nd |-> [p \in 1..NParams(k) |-> IF j = 1 THEN 100 ELSE 0]])]
SplitKernel(I, q) ==
  LET J == Kerneled(I, LAMBDA s : Append(s, s[q])) n == NK(I) + 1 h(x) == x \div 2 IN
  [J EXCEPT !.inp.kamp[q] = <<h(@[1])>>, !.inp.kamp[n] = <<h(@[1])>>,
            !.inp.kamp_l[q] = [j \in DOMAIN @ |-> h(@[j])], !.inp.kamp_l[n] = [j \in DOMAIN @ |-> h(@[j])]]
RelP16(I0) ==
  \E I \in {Pick([I0 EXCEPT !.inp.kamp = [q \in DOMAIN @ |-> <<R({100, 200, 400, 300})>>]])} :
  \E k \in {Pick(R(1..3))} : \E q \in {Pick(R(1..NK(I)))} : \E p \in {Pick(RandSeq(1..NK(I), NK(I)))} :
  \E x \in {Pick(R(Kernels))} : \E pars \in {Pick([c \in 1..MaxKernelParams |-> KPar(x, c)])} :
  \E sv \in {Pick(R(SafeSolvers(I)))} : \E r \in {Pick(Req(I, sv, AllOuts(sv), RandPhis(I, R({1, 2}))))} :
  LET kn == KnownTag("P16", I, r)
      J == CASE k = 1 /\ NK(I) > 1 -> Kerneled(I, LAMBDA s : Part(s, p)) [] k = 2 -> SplitKernel(I, q) [] OTHER -> AddKernel(I, x, pars) IN
  hist' = [vs |-> <<Variant(I, <<r>>), Variant(J, <<r>>)>>, fs |-> <<Same("P16", "alg", sv, Blocks(I, r), T(1, 1), T(2, -1), kn)>>]

(* ---- P18: embedded problems ---- *)
MapCoef(I, Z(_)) == [I EXCEPT !.inp.coef = [i \in DOMAIN @ |-> <<Z(@[i][1])>>]]
NoCoefL(I) == [I EXCEPT !.inp.coef_l = [i \in DOMAIN @ |-> [j \in DOMAIN @[i] |-> Zeros(Len(@[i][j]))]]]
MoreCoef(I, n) == [I EXCEPT !.cfg.max_coef = @ + n, !.inp.coef_l = [i \in DOMAIN @ |-> [j \in DOMAIN @[i] |-> @[i][j] \o Zeros(n)]]]
VectorOpts == {"vector", "phase_scalar", "phase_matrix_gc", "phase_matrix_lc"}
Scalar(I) == [I EXCEPT !.cfg.ns = 1, !.cfg.opts = (@ \ VectorOpts) \cup {"phase_scalar"}]
Vectorial(I, n) == [I EXCEPT !.cfg.ns = n, !.cfg.opts = (@ \ VectorOpts) \cup {"vector", "phase_matrix_gc"}]
Dark(I, x) == IF x = "solar" THEN [I EXCEPT !.inp.F_0 = <<0>>]
              ELSE [I EXCEPT !.inp.surface_b = <<0>>, !.inp.levels_b = <<Zeros(I.cfg.nl + 1)>>, !.inp.surface_b_l = Zeros(I.cfg.nd), !.inp.levels_b_l = [j \in DOMAIN @ |-> Zeros(I.cfg.nl + 1)]]
MoreSolvers(I, X) == [I EXCEPT !.cfg.solvers = @ \cup X, !.inp.doub_d_tau = IF "doub_add" \in X THEN <<1>> ELSE @,
                        !.inp.pade = IF "pade_add" \in X THEN <<<<2, 5>>>> ELSE @, !.inp.sos = IF "sos" \in X THEN <<<<300, 50, 0>>>> ELSE @]
RelP18(I0) ==
  \E I \in {I0} : \E k \in {Pick(R(1..8))} : \E n \in {Pick(R({1, 3, 8}))} : \E x \in {Pick(R({"solar", "thermal"}))} :
  \E sv \in {Pick(R(SafeSolvers(I)))} : \E r \in {Pick(Req(I, sv, AllOuts(sv), RandPhis(I, R({1, 2}))))} :
  \E X \in {LET other == Solvers \ (Excluded(I.cfg.opts, I.cfg) \cup I.cfg.solvers) IN IF other = {} THEN {} ELSE {Pick(R(other)), Pick(R(other))}} :
  LET kn == KnownTag("P18", I, r)
      vec == I.cfg.ns > 1
      st(t, s) == [t EXCEPT !.st = s]
      two(A, B, bs, a, b) == [vs |-> <<Variant(A, <<r>>), Variant(B, <<r>>)>>, fs |-> <<Same("P18", "alg", sv, bs, a, b, kn)>>]
      plain(A, B) == two(A, B, Blocks(A, r), T(1, 1), T(2, -1)) IN
  hist' =
   CASE k = 1 -> plain(I, MoreCoef(I, n))
     [] k = 2 -> LET J == MoreCoef(I, n) IN plain(I, MapCoef(J, LAMBDA h : [h EXCEPT !.id = @ + 100 * h.n, !.n = h.n + n]))
     [] k = 3 -> plain(I, MoreSolvers(I, X))
     [] k = 4 /\ NK(I) = 0 -> plain(I, [I EXCEPT !.cfg.nkq = @ + n])
     [] k = 5 \/ (k = 4 /\ vec) ->   \* no polarization in the problem; with four components and three
          (* with the sun in the zenith a scalar problem needs one Fourier mode
             only; the others of a kernel vanish up to its azimuthal quadrature *)
          LET low == IF NK(I) > 0 /\ IsSet(I.inp.theta_0) /\ I.inp.theta_0[1] = 0 THEN [I EXCEPT !.inp.theta_0 = <<41000>>] ELSE I
              A == NoCoefL(MapCoef(Inner(low), LAMBDA h : [h EXCEPT !.id = @ + 10]))
              B == IF vec THEN Scalar(A) ELSE Vectorial(A, R({1, 3, 4})) IN
          [vs |-> <<Variant(A, <<r>>), Variant(B, <<r>>)>>,
           fs |-> <<Same("P18", "embed", sv, RadBlocks(I), st(T(1, 1), <<0>>), st(T(2, -1), <<0>>), kn), Same("P18", "embed", sv, Blocks(I, r) \ RadBlocks(I), T(1, 1), T(2, -1), kn)>>
             \o (IF vec THEN LET z == SubSeq(<<1, 2, 3>>, 1, I.cfg.ns - 1) IN <<[Same("P18", "alg", sv, RadBlocks(I), st(T(1, 1), z), st(T(1, 0), z), kn) EXCEPT !.sc = <<<<1, 1, 1>>>>]>> ELSE <<>>)]
     [] k = 6 /\ vec ->
          LET A == NoCoefL(MapCoef([I EXCEPT !.cfg.ns = 4], LAMBDA h : [h EXCEPT !.id = @ + 20])) B == [A EXCEPT !.cfg.ns = 3]
              z == <<0, 1, 2>> IN
          [vs |-> <<Variant(A, <<r>>), Variant(B, <<r>>)>>,
           fs |-> <<Same("P18", "alg", sv, RadBlocks(I), st(T(1, 1), z), T(2, -1), kn), Same("P18", "alg", sv, Blocks(I, r) \ RadBlocks(I), T(1, 1), T(2, -1), kn)>>]
     [] k = 7 /\ ("source_" \o x) \in I.cfg.opts -> plain(Dark(I, x), Without(I, x))
     [] OTHER ->  \* delta scaling without anything to scale
          LET A == NoCoefL(MapCoef(I, LAMBDA h : [h EXCEPT !.n = IF @ > 2 * I.cfg.nq THEN 2 * I.cfg.nq ELSE @]))
              B == [A EXCEPT !.cfg.opts = IF "delta_m" \in @ THEN @ \ {"delta_m", "n_t_tms"} ELSE @ \cup {"delta_m"}] IN
          plain(A, B)

(* ---- P19: energy ---- *)
NoTherm(I) == IF Has(I, "source_thermal") THEN Without(I, "thermal") ELSE I
Smooth(I) == MapCoef(I, LAMBDA h : [h EXCEPT !.id = IF @ % 2 = 0 THEN 2 ELSE 6, !.n = 2 * I.cfg.nq])
LevelsOf(I) == IF IsSet(I.inp.out_levels) THEN I.inp.out_levels[1] ELSE <<>>
NoSurface(I) == [I EXCEPT !.cfg.kernels = <<>>, !.inp.kamp = <<>>, !.inp.kpar = <<>>, !.inp.kfun = <<>>, !.inp.kamp_l = <<>>, !.inp.kpar_l = <<>>]
(* a surface that reflects no less than nothing and no more than all *)
Physical(I) == IF NK(I) = 0 THEN I ELSE Lossless(I)
RelP19(I0) ==
  \E k0 \in {Pick(R(1..6))} : \E w \in {Pick(R({0, 500, 900}))} :
  \E sv \in {Pick(R(SafeSolvers(I0) \ {"single", "two_os"}))} :
  \E k \in {IF k0 = 6 /\ sv \in FewStream THEN 5 ELSE k0} : \E I \in {[NoDeriv(I0) EXCEPT !.cfg.opts = (@ \ {"psa"}) \cup {"upwelling_output", "downwelling_output"}, !.inp.planet_r = <<>>, !.inp.levels_z = <<>>]} :
  \E r \in {Pick(Req(I, sv, IF k = 6 THEN AllOuts(sv) ELSE {"radiance_mean", "flux"}, RandPhis(I, 1)))} :
  LET kn == KnownTag("P19", I, r)
      nl == I.cfg.nl
      net(l, s) == <<[T(1, s) EXCEPT !.b = "f-", !.lv = <<l>>], [T(1, -s) EXCEPT !.b = "f+", !.lv = <<l>>]>>
      ends(J) == IF Has(J, "output_at_taus") THEN AtTaus(J, <<0, Cum(J, nl)>>) ELSE AtLevels(J, <<0, nl>>)
      omega(J, v) == [J EXCEPT !.inp.omega = [i \in DOMAIN @ |-> <<v>>]]
      one(J, f) == [vs |-> <<Variant(J, <<r>>)>>, fs |-> f]
      form(cls, rel, bs, t) == [Form("P19", cls, {sv}, bs, t, kn) EXCEPT !.rel = rel] IN
  hist' =
    CASE k = 1 -> one(ends(omega(NoTherm(Smooth(IF sv = "sos" THEN Physical(I) ELSE I)), 1000)), <<form("energy", "eq", {"f+"}, net(0, 1) \o net(1, -1))>>)
      [] k = 2 -> one([ends(Lossless(NoTherm(Smooth(Doubled(I))))) EXCEPT !.inp.F_iso_bot = <<0>>], <<form("energy", "eq", {"f+"}, net(1, 1))>>)
      [] k = 3 -> LET J == ends(NoTherm(Physical(Smooth(Doubled(I))))) IN
               one(J, <<form("sign", "ge", {"f+"}, net(0, 1) \o net(1, -1))>>
                       \o (IF J.inp.F_iso_bot[1] = 0 THEN <<form("sign", "ge", {"f+"}, net(0, 1)), form("sign", "ge", {"f+"}, net(1, 1))>> ELSE <<>>))
      [] k = 4 -> one(Physical(Smooth(I)), <<form("sign", "ge", {"m+", "m-", "f+", "f-"}, <<T(1, 1)>>)>>)
      [] k = 5 -> \* the beam in an absorbing medium
           LET J == [omega(NoSurface(NoTherm(I)), 0) EXCEPT !.inp.F_iso_top = <<0>>, !.inp.F_iso_bot = <<0>>]
               ls == LevelsOf(J) th == IF IsSet(J.inp.theta_0) THEN J.inp.theta_0[1] ELSE 0
               tau(l) == IF Has(J, "output_at_taus") THEN J.inp.out_taus[1][l] ELSE Cum(J, ls[l]) IN
           [vs |-> <<Variant(J, <<r>>)>>, fs |-> IF ~Has(J, "source_solar") THEN <<>> ELSE
             [l \in 1..J.cfg.nlev |-> form("energy2", "eq", {"f-"}, <<[T(1, 1) EXCEPT !.lv = <<l - 1>>],
                [T(0, -1) EXCEPT !.c = <<-J.inp.F_0[1], 1000>>, !.f = <<<<"exp", tau(l), th>>, <<"cos", th>>>>]>>)]]
      [] OTHER -> \* radiance that enters, in an absorbing medium of one temperature
           LET b == 700
               J == omega(NoSurface([I EXCEPT !.inp.F_iso_top = <<w>>, !.inp.F_iso_bot = <<1300>>,
                         !.inp.levels_b = IF IsSet(@) THEN <<Ones(nl + 1, b)>> ELSE @, !.inp.surface_b = IF IsSet(@) THEN <<0>> ELSE @]), 0)
               B == IF IsSet(J.inp.levels_b) THEN b ELSE 0
               tot == Cum(J, nl)
               tau(l) == IF Has(J, "output_at_taus") THEN J.inp.out_taus[1][l] ELSE Cum(J, LevelsOf(J)[l])
               law(x, l, u, F, t) == form("energy2", "eq", {x}, <<[T(1, 1) EXCEPT !.lv = <<l - 1>>, !.mu = <<u - 1>>, !.st = <<0>>],
                  [T(0, -1) EXCEPT !.c = <<-B, 1000>>], [T(0, -1) EXCEPT !.c = <<B - F, 1000>>, !.f = <<<<"exp", t, J.inp.out_thetas[1][u]>>>>]>>) IN
           [vs |-> <<Variant(J, <<r>>)>>, fs |-> IF J.cfg.nu = 0 THEN <<>> ELSE
             FlattenSeq([l \in 1..J.cfg.nlev |-> FlattenSeq([u \in 1..J.cfg.nu |-> <<law("I-", l, u, w, tau(l)), law("I+", l, u, 1300, tot - tau(l))>>])])]

(* ---- P24: delta scaling, and the correction of single scattering ---- *)
(* with delta_m the answer is that of the layers without the forward peak;
   with n_t_tms single scattering is taken out of it and put back with the
   whole phase function.  The single scattering of a part of the albedo is that part of
   the single scattering; all else that reaches the views is the same. *)
RelP24(I0) ==
  \E tms \in {"n_t_tms" \notin Excluded({}, I0.cfg) /\ Has(I0, "source_solar") /\ ~Has(I0, "no_azimuthal") /\ Pct(60)} :
  \E more \in {R(1..6)} :
  \E I \in {LET J == [I0 EXCEPT !.cfg.opts = (@ \ {"n_t_tms", "four_conv_old", "four_conv_new"}) \cup {"delta_m"} \cup (IF tms THEN {"n_t_tms"} ELSE {})
                                         \cup {IF tms /\ Pct(50) THEN "four_conv_new" ELSE "four_conv_old"}]
                 short == J.cfg.max_coef <= 2 * J.cfg.nq + 1
                 K == IF short THEN MoreCoef(J, 2 * J.cfg.nq + more - J.cfg.max_coef) ELSE J IN
             (* most layers have a peak *)
             MapCoef(K, LAMBDA h : IF Pct(80) THEN [h EXCEPT !.n = 2 * J.cfg.nq + 1 + (more % (K.cfg.max_coef - 2 * J.cfg.nq)), !.id = IF @ % 10 \in {1, 2} THEN @ + 2 ELSE @] ELSE h)} :
  \E sv \in {Pick(R(IF SafeSolvers(I) \ (Excluded(I.cfg.opts, I.cfg)) = {} THEN SafeSolvers(I) ELSE SafeSolvers(I) \ (Excluded(I.cfg.opts, I.cfg))))} :
  \E r \in {Pick(Req(I, sv, AllOuts(sv), RandPhis(I, R({1, 2}))))} :
  LET A == [I EXCEPT !.cfg.solvers = {sv}]
      B == [A EXCEPT !.cfg.opts = (@ \ {"delta_m", "n_t_tms", "four_conv_new"}) \cup {"four_conv_old"}]
      D == [(IF Has(B, "source_thermal") THEN Without(B, "thermal") ELSE B) EXCEPT !.cfg.solvers = {"single"}, !.inp.doub_d_tau = <<>>, !.inp.pade = <<>>, !.inp.sos = <<>>]
      q == Only([r EXCEPT !.solver = "single"], {"radiance"})
      kn == KnownTag("P24", I, r) IN
  hist' = IF ~tms THEN
            [vs |-> <<Variant(A, <<r>>), Rescaled(B, <<r>>, "dm")>>, fs |-> <<Same("P24", "alg", sv, Blocks(I, r), T(1, 1), T(2, -1), kn)>>]
          ELSE IF sv = "single" THEN
            [vs |-> <<Variant(A, <<r>>), Rescaled(B, <<r>>, "full"), Rescaled(B, <<r>>, "part"), Rescaled(B, <<r>>, "dm")>>,
             (* what does not come from the layers counts once *)
             fs |-> <<Form("P24", "alg", {sv}, RadBlocks(I), <<T(1, 1), T(2, -16), T(3, 16), T(4, -1)>>, kn)>>]
          ELSE
            [vs |-> <<Variant(A, <<r>>), Rescaled(B, <<r>>, "dm"), Rescaled(D, <<q>>, "full"), Rescaled(D, <<q>>, "part")>>,
             fs |-> <<Form("P24", "alg", {sv}, RadBlocks(I), <<T(1, 1), T(2, -1), T(3, -16), T(4, 16)>>, kn),
                      Same("P24", "alg", sv, Blocks(I, r) \ RadBlocks(I), T(1, 1), T(2, -1), kn)>>]

(* ---- P25: reciprocity ---- *)
(* light that comes along one direction and leaves along another: the same
   share of it as in the opposite direction.  Of the light reflected, by layers and
   surface; of the light transmitted, with the layers upside down. *)
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
UpsideDown(I) ==
  LET nl == I.cfg.nl tot == Cum(I, nl) IN
  [I EXCEPT !.inp.coef = Rev(@), !.inp.omega = Rev(@), !.inp.ltau = Rev(@), !.inp.coef_l = Rev(@), !.inp.omega_l = Rev(@), !.inp.ltau_l = Rev(@),
            !.inp.levels_b = IF IsSet(@) THEN <<Rev(@[1])>> ELSE @, !.inp.levels_b_l = [j \in DOMAIN @ |-> Rev(@[j])],
            !.inp.F_iso_top = I.inp.F_iso_bot, !.inp.F_iso_bot = I.inp.F_iso_top, !.inp.F_iso_top_l = I.inp.F_iso_bot_l, !.inp.F_iso_bot_l = I.inp.F_iso_top_l,
            !.inp.out_levels = IF IsSet(@) THEN <<[l \in DOMAIN @[1] |-> nl - Rev(@[1])[l]]>> ELSE @,
            !.inp.out_taus = IF IsSet(@) THEN <<[l \in DOMAIN @[1] |-> tot - Rev(@[1])[l]]>> ELSE @]
NoCurve(I) == [I EXCEPT !.cfg.opts = @ \ {"psa"}, !.inp.planet_r = <<>>, !.inp.levels_z = <<>>]
NoIso(I) == [I EXCEPT !.inp.F_iso_top = <<0>>, !.inp.F_iso_bot = <<0>>, !.inp.F_iso_top_l = Zeros(Len(@)), !.inp.F_iso_bot_l = Zeros(Len(@))]
At(I, l) == IF Has(I, "output_at_taus") THEN AtTaus(I, <<Cum(I, l)>>) ELSE AtLevels(I, <<l>>)
BothWays(I) == [I EXCEPT !.cfg.opts = @ \cup {"upwelling_output", "downwelling_output"}]
Reciprocal == Kernels \ {"direct_and_diffuse", "user_defined", "li_sparse", "li_dense"}
RelP25(I0) ==
  \E down \in {Pct(40)} :
  \E I1 \in {LET J == NoIso(NoTherm(NoCurve(BothWays(I0)))) IN IF down \/ ~(Range(J.cfg.kernels) \subseteq Reciprocal) THEN NoSurface(J) ELSE J} :
  \E sv \in {Pick(R(SafeSolvers(I1)))} :
  (* the azimuths of the kernels resolved; the surface with the quadrature that needs no normalisation, which some solvers leave out *)
  \E I \in {LET J == At(I1, IF down THEN I1.cfg.nl ELSE 0) IN
             IF NK(J) = 0 THEN J ELSE [(IF sv \in FewStream \cup {"two_os"} THEN Doubled(J) ELSE J) EXCEPT !.cfg.nkq = 32]} : \E r \in {Pick(Req(I, sv, {"radiance"}, RandPhis(I, R({1, 2}))))} : \E u \in {R(1..NMu(I.cfg))} :
  LET d == IF down THEN "-" ELSE "+"
      a == I.inp.theta_0[1] b == I.inp.out_thetas[1][u]
      K == [(IF down THEN UpsideDown(I) ELSE I) EXCEPT !.cfg.nu = 1, !.inp.theta_0 = <<b>>, !.inp.out_thetas = <<<<a>>>>,
             !.inp.out_levels = I.inp.out_levels, !.inp.out_taus = I.inp.out_taus]
      q == [r EXCEPT !.phis = <<@[u]>>]
      lit(t, x) == [t EXCEPT !.f = <<<<"cos", x>>>>, !.st = <<0>>] IN
  hist' = IF I.cfg.nu = 0 \/ ~Has(I, "source_solar") THEN [vs |-> <<>>, fs |-> <<>>] ELSE
    [vs |-> <<Variant(I, <<r>>), Variant(K, <<q>>)>>,
     fs |-> <<Form("P25", "recip", {sv}, {"I" \o d} \cup (IF Deriv(I) THEN {"dI" \o d} ELSE {}),
               <<[lit(T(1, 1), b) EXCEPT !.mu = <<u - 1>>], lit(T(2, -1), a)>>, KnownTag("P25", I, r))>>]

(* ---- P26: up and down, and equilibrium ---- *)
Dual(b) == CASE b = "I+" -> "I-" [] b = "I-" -> "I+" [] b = "dI+" -> "dI-" [] b = "dI-" -> "dI+" [] b = "m+" -> "m-" [] b = "m-" -> "m+" [] b = "f+" -> "f-" [] OTHER -> "f+"
RelP26(I0) ==
  \E k \in {R(1..2)} : \E b \in {R({300, 1000, 2700})} :
  \E I1 \in {BothWays(NoCurve(IF Has(I0, "source_solar") THEN [I0 EXCEPT !.inp.F_0 = <<0>>] ELSE I0))} :
  \E I \in {IF k = 1 THEN NoSurface(I1) ELSE NoDeriv(I1)} :
  \E sv \in {Pick(R(SafeSolvers(I) \ (FewStream \cup {"single", "two_os"})))} : \E r \in {Pick(Req(I, sv, AllOuts(sv), RandPhis(I, R({1, 2}))))} :
  LET kn == KnownTag("P26", I, r)
      therm == Has(I, "source_thermal") IN
  hist' = IF k = 1 THEN
      (LET ls == [l \in 1..I.cfg.nlev |-> I.cfg.nlev - l] IN
       [vs |-> <<Variant(I, <<r>>), Variant(UpsideDown(I), <<r>>)>>,
        fs |-> [q \in 1..Cardinality(Blocks(I, r)) |-> LET x == SetToSeq(Blocks(I, r))[q] IN
                 Form("P26", "alg", {sv}, {x}, <<T(1, 1), [T(2, -1) EXCEPT !.b = Dual(x), !.lv = ls]>>, kn)]])
    ELSE
      (* everything at one temperature, or nothing that absorbs *)
      (LET J0 == [Doubled(I) EXCEPT !.inp.F_iso_top = <<b>>, !.inp.F_iso_bot = IF therm /\ NK(I) > 0 THEN <<0>> ELSE <<b>>,
                   !.inp.levels_b = IF therm THEN <<Ones(I.cfg.nl + 1, b)>> ELSE <<>>, !.inp.surface_b = IF therm THEN <<IF NK(I) > 0 THEN b ELSE 0>> ELSE <<>>]
           J == MapCoef(IF therm THEN J0 ELSE [NoSurface(J0) EXCEPT !.inp.omega = [i \in DOMAIN @ |-> <<1000>>]], LAMBDA h : [h EXCEPT !.n = IF @ > 2 * I.cfg.nq THEN 2 * I.cfg.nq ELSE @])
           one(x, c) == [Form("P26", IF therm THEN "equil" ELSE "energy", {sv}, {x}, <<[T(1, 1) EXCEPT !.st = <<0>>], [T(0, -1) EXCEPT !.c = <<-b, 1000>>, !.f = c]>>, kn)
                          EXCEPT !.sc = <<<<2, 1, 1>>>>] IN
       [vs |-> <<Variant(J, <<r>>)>>, fs |-> <<one("I+", <<>>), one("I-", <<>>), one("f+", <<<<"pi">>>>), one("f-", <<<<"pi">>>>)>>])

(* ---- P27: ways to the same answer ---- *)
RelP27(I0) ==
  \E sv \in {Pick(R(SafeSolvers(I0)))} :
  \E can \in {{k \in 1..4 : CASE k = 1 -> sv \in {"eig_add", "eig_bvp"}
                             [] k = 2 -> sv \in {"eig_bvp", "two_os", "single"} /\ I0.cfg.nu > 0 /\ \A q \in DOMAIN I0.cfg.kernels : I0.cfg.kernels[q] # "direct_and_diffuse"
                             [] k = 3 -> sv \in AddingSolvers
                             [] OTHER -> Has(I0, "source_solar")}} :
  \E k \in {IF can = {} THEN 0 ELSE R(can)} : \E down \in {Pct(50)} :
  \E I \in {[I0 EXCEPT !.cfg.solvers = {sv}, !.cfg.nkq = IF NK(I0) > 0 THEN 32 ELSE @]} :
  \E r \in {Pick(Req(I, sv, AllOuts(sv), RandPhis(I, R({1, 2}))))} :
  LET swap(x, y) == [I EXCEPT !.cfg.opts = IF x \in @ THEN (@ \ {x}) \cup y ELSE (@ \ y) \cup {x}]
      flat == [I EXCEPT !.cfg.opts = @ \cup {"psa"}, !.inp.planet_r = <<2000000000>>, !.inp.levels_z = <<[i \in 1..(I.cfg.nl + 1) |-> 100 * (I.cfg.nl + 1 - i)]>>]
      level == IF down THEN I.cfg.nl ELSE 0
      one == AtLevels([I EXCEPT !.cfg.opts = @ \ {"stack_reuse_adding", "top_down_adding", "bottom_up_adding"}], <<level>>)
      A == CASE k = 1 -> swap("part_sol_greens", {"part_sol_classical"}) [] k = 2 -> swap("sfi", {}) [] k = 3 -> one [] OTHER -> flat
      B == CASE k \in {1, 2} -> I [] k = 3 -> [one EXCEPT !.cfg.opts = @ \cup {IF down THEN "top_down_adding" ELSE "bottom_up_adding"}] [] OTHER -> NoCurve(I) IN
  hist' = IF k = 0 THEN [vs |-> <<>>, fs |-> <<>>] ELSE
    [vs |-> <<Variant(A, <<r>>), Variant(B, <<r>>)>>,
     fs |-> LET cls == CASE k = 1 -> "greens" [] k = 2 -> "sfi" [] k = 3 -> "oneway" [] OTHER -> "flat"
                f(bs, t) == IF bs = {} THEN <<>> ELSE <<Same("P27", cls, sv, bs, T(1, 1), T(2, -1), t)>> IN
            IF k # 2 THEN f(Blocks(I, r), KnownTag("P27", I, r))
            ELSE f(Blocks(I, r) \ PlainBlocks(I, r), KnownTag("P27", I, r)) \o f(PlainBlocks(I, r), MoreTag(KnownTag("P27", I, r), PlainTag("P27", I, r)))]

(* ---- P21: programs in the input language ---- *)
(* the inputs of I, some of them in other shapes *)
ReShaped(I) ==
  LET n == I.inp nl == I.cfg.nl nk == NK(I)
      cs == Canonical(NoDeriv(I))
      vals(x) == [i \in DOMAIN x |-> x[i][1]]
      g == Pick([coef |-> Pct(50), omega |-> Pct(50), ltau |-> Pct(50)])
      full(x) == \A i \in DOMAIN x : IsSet(x[i])
      b(x) == g[x] /\ full(n[x]) /\ nl > 0
      drop == (IF b("coef") THEN {"set_coef_1"} ELSE {}) \cup (IF b("omega") THEN {"set_omega_1"} ELSE {}) \cup (IF b("ltau") THEN {"set_ltau_1"} ELSE {}) \cup {"set_kernel_params_1"}
      rest == SelectSeq(cs, LAMBDA c : c.op \notin drop \/ (c.op = "set_kernel_params_1" /\ c.a[1] % 2 = nl % 2))
      ks == Flat([k \in 1..nk |-> IF k % 2 # nl % 2 \/ n.kpar[k] = <<>> THEN <<>> ELSE <<Cl("set_kernel_params_n", <<k - 1, vals(n.kpar[k])>>)>>]) IN
  SelectSeq(rest, LAMBDA c : c.op # "set_out_taus")
  \o (IF b("coef") THEN <<Cl("set_coef_n", <<vals(n.coef)>>)>> ELSE <<>>) \o (IF b("omega") THEN <<Cl("set_omega_n", <<vals(n.omega)>>)>> ELSE <<>>)
  \o (IF b("ltau") THEN <<Cl("set_ltau_n", <<vals(n.ltau)>>)>> ELSE <<>>) \o IfSet("set_out_taus", n.out_taus) \o ks
Late == {"set_coef_l_11", "set_coef_l_n1", "set_coef_l_1n", "set_coef_l_nn"}
Shuffled(s) == LET p == Pick(RandSeq(DOMAIN s, Len(s))) t == [q \in DOMAIN s |-> s[p[q]]] IN
  SelectSeq(t, LAMBDA c : c.op \notin Late) \o SelectSeq(t, LAMBDA c : c.op \in Late)
(* calls that make I out of a new instance, and that the language has *)
PlanOf(I) ==
  LET I0 == NewInst(I.cfg)
      base == Pick(ReShaped(I) \o (IF Deriv(I) THEN FdCalls(I) ELSE <<>>))
      noise == Pick(IF Pct(30) THEN SelectSeq(FillBut(I0, {}, 60), LAMBDA c : CanWrite(I, c, "l")) ELSE <<>>)
      s == Pick(IF Pct(50) THEN Shuffled(base) ELSE base)
      good(t) == AllAccepted(I0, t) /\ Expressible(I, t, "l") /\ Seen(Fold(I0, t)) = Seen(I) IN
  CASE noise # <<>> /\ good(noise \o s) -> [calls |-> noise \o s, bare |-> FALSE] [] good(s) -> [calls |-> s, bare |-> TRUE]
    [] good(base) -> [calls |-> base, bare |-> TRUE] [] OTHER -> [calls |-> <<>>, bare |-> TRUE]
FlagsOf(I, r) ==
  LET first == CHOOSE q \in DOMAIN SolverNames : SolverNames[q] \in I.cfg.solvers /\ \A x \in 1..(q - 1) : SolverNames[x] \notin I.cfg.solvers IN
  (IF SolverNames[first] = r.solver /\ Pct(50) THEN <<>> ELSE <<"-solver " \o r.solver>>)
  \o (IF "radiance" \in r.outs THEN (IF Pct(20) THEN <<"-radiance">> ELSE <<>>) ELSE <<"-no_radiance">>)
  \o (IF "radiance_mean" \in r.outs THEN <<"-radiance_mean">> ELSE <<>>) \o (IF "flux" \in r.outs THEN <<"-flux">> ELSE <<>>) \o (IF Pct(10) THEN <<"-output_results">> ELSE <<>>)
ProgEv(G, I, r, nd, ok) == [op |-> "program", i |-> 0, how |-> G.how, head |-> G.head, body |-> G.body, flags |-> G.flags, sp |-> G.sp,
  phis |-> IF r.nphi = 0 THEN <<>> ELSE r.phis[1], r |-> r, c |-> I.cfg, nd |-> nd, ok |-> ok, style |-> R(0..11),
  rows |-> IF "radiance" \in r.outs THEN Rows(I, r) ELSE <<>>, at |-> Depths(I)]
Trim(G, bare) == IF G.how # "string" THEN G ELSE
  LET keep(s) == ~Defaults(s) \/ Pct(50) IN [G EXCEPT !.head = SelectSeq(@, keep), !.body = IF bare THEN SelectSeq(@, keep) ELSE @]
Steps(I, calls, d) ==   \* delta and perturbations
  <<St("delta", <<>>, "delta", d)>> \o WriteAll(I, calls, "p")
RelP21(I0) ==
  \E fd \in {Deriv(I0) /\ DepthsInside(Inner(I0)) /\ Pct(30)} :
  \E I1 \in {[(IF fd THEN Inner(I0) ELSE I0) EXCEPT !.cfg.nth = 1]} :
  \E I \in {IF fd THEN NoDeriv(I1) ELSE I1} :
  \E sv \in {Pick(R(SafeSolvers(I)))} : \E ph0 \in {Pick(RandPhis(I, R({1, 1, 2, 3})))} :
  \E outs \in {IF fd \/ sv = "single" THEN {"radiance"} ELSE Pick(R({{"radiance"}, {"radiance"}, {"radiance", "radiance_mean", "flux"}, {"radiance", "flux"}, {"flux"}, {"radiance_mean"}}))} :
  \E r \in {Req(I, sv, outs, [u \in DOMAIN ph0 |-> IF Pct(0) THEN ph0[u] ELSE ph0[1]])} :
  \E plan \in {Pick(PlanOf(I))} : \E fl \in {Pick(FlagsOf(I, r))} :
  \E m \in {I1.cfg.nd} : \E d \in {Pick([j \in 1..I1.cfg.nd |-> 1024])} :
  \E pc \in {Pick(IF fd THEN FdCalls(I1) ELSE <<>>)} :
  \E body \in {Pick(WriteAll(NewInst(I.cfg), plan.calls, "l") \o (IF fd THEN Steps(I1, pc, d) ELSE <<>>))} :
  \E how \in {Pick(R({"file", "stdin", "string"}))} :
  \E G0 \in {[how |-> how, head |-> Header(I.cfg, m) \o (IF fd THEN <<St("fd", <<>>, "int", R(0..2))>> ELSE <<>>), body |-> body, flags |-> fl, sp |-> ""]} :
  \E G \in {Pick(Trim(G0, plan.bare))} :
  \E k \in {Pick(R(Kinds))} : \E bad \in {Pct(35)} :
  \E x \in {Pick(R(MissingElems(NewInst(I.cfg))))} :
  LET kn == KnownTag("P21", I, r)
      inc == Pick(FillBut(NewInst(I.cfg), {x}, 300))
      G1 == IF k = 19 THEN (IF fd \/ x[1] = "kernel_funcs" \/ (how = "string" /\ x[1] \in DefaultedInputs) THEN Bad(G0, I, 10, sv) ELSE [G0 EXCEPT !.body = WriteAll(NewInst(I.cfg), inc, "l")]) ELSE Bad(G0, I, k, sv)
      B == IF fd THEN Differenced(I1, <<r>>, [delta |-> d, calls |-> pc, ms |-> <<2>>]) ELSE Variant(I, <<r>>) IN
  hist' = IF plan.calls = <<>> THEN [vs |-> <<>>, fs |-> <<>>]
          ELSE IF bad /\ ~fd THEN [vs |-> <<>>, fs |-> <<ProgEv(G1, I, r, 0, FALSE)>>]
          ELSE [vs |-> <<B>>, fs |-> <<ProgEv(G, I, r, IF fd THEN m ELSE I.cfg.nd, TRUE),
                  Same("P21", "printed", sv, Blocks(I, r) \cup (IF fd THEN {"d" \o b : b \in PlainBlocks(I, r)} ELSE {}), T(1, 1), T(IF fd THEN 3 ELSE 2, -1), kn)>>]

(* ---------------- the cases ---------------- *)
NeedDeriv == Mode \in {"P12", "P13", "P23"}
Wanted(c) == /\ (NeedDeriv => c.nd > 0)
             /\ (Mode = "P16" => Len(c.kernels) > 0)
             /\ (Mode = "P21" => \A q \in DOMAIN c.kernels : c.kernels[q] # "user_defined")
             /\ (Mode = "P15" => (\E sv \in c.solvers : TRUE) )
             /\ (Mode = "P19" => (c.nlev <= 2 /\ Safe(Created(c)) \ {"single", "two_os"} # {}))
             /\ (Mode = "P25" => (c.nu > 0 /\ "source_solar" \in c.opts))
             /\ (Mode = "P11" => Cardinality(Safe(Created(c)) \cap Exact) >= 2)
(* every solver is the subject of as many cases *)
Subjects == IF NeedDeriv THEN Solvers \ FewStream ELSE IF Mode = "P19" THEN Solvers \ {"single", "two_os"} ELSE IF Mode = "P26" THEN Solvers \ (FewStream \cup {"single", "two_os"}) ELSE Solvers
RECURSIVE PCfg(_, _)
PCfg(k, tv) ==
  LET c == Pick(RandCand(k))
      d == Pick([(IF tv \in FewStream THEN [c EXCEPT !.opts = @ \ ({"calc_derivs"} \cup SaveOptions \cup VectorOpts), !.ns = 1, !.nd = 0] ELSE c) EXCEPT !.solvers = IF Mode = "P11" \/ Pct(20) THEN @ \cup {tv} ELSE {tv}])
  IN IF CandOK(d) /\ tv \in Safe(Created(d)) /\ Wanted(d) THEN d ELSE PCfg(k + 1, IF k % 300 = 299 THEN Pick(R(Subjects)) ELSE tv)
Case(h) ==
  LET ok == \A q \in DOMAIN h.vs : VariantOK(h.vs[q]) IN
  IF ok THEN FlattenSeq([q \in DOMAIN h.vs |-> VEvents(h.vs[q])]) \o h.fs ELSE <<>>
Rel(I) == CASE Mode = "P10" -> RelP10(I) [] Mode = "P15" -> RelP15(I) [] Mode = "P16" -> RelP16(I) [] Mode = "P18" -> RelP18(I) [] Mode = "P19" -> RelP19(I)
          [] Mode = "P11" -> RelP11(I) [] Mode = "P12" -> RelP12(I) [] Mode = "P13" -> RelP13(I) [] Mode = "P14" -> RelP14(I) [] Mode = "P17" -> RelP17(I) [] Mode = "P23" -> RelP23(I) [] Mode = "P21" -> RelP21(I) [] Mode = "P24" -> RelP24(I) [] Mode = "P25" -> RelP25(I) [] Mode = "P26" -> RelP26(I) [] Mode = "P27" -> RelP27(I)
InitE == S = <<>> /\ hist = <<>> /\ ph = 0
NextE ==
  \/ ph = 0 /\ \E c \in {PCfg(0, Pick(R(Subjects)))} : \E I \in {RandProblem(c)} : ph' = (IF ProblemOK(I) THEN 1 ELSE 3) /\ S' = <<I>> /\ UNCHANGED hist
  \/ ph = 1 /\ ph' = 2 /\ Rel(S[1]) /\ S' = <<>>
  \/ ph = 2 /\ ph' = 3 /\ PrintT(ToJson(Case(hist))) /\ UNCHANGED <<S, hist>>
=============================================================================

----------------------------- MODULE XrtmProgram -----------------------------
(* The input language of callxrtm: programs, and the calls they stand for.  *)
(* A program is a header, which describes an instance, and a body, which    *)
(* sets its inputs.  A statement is the record                              *)
(*   [nm: name, ix: indices (-1 is ":"), u: unit, v: value]                 *)
(* whose value is a number, an array (of arrays ...) of numbers, or a list. *)
(* Syntax(I, c, x) is the sequence of all ways to write the call c (for     *)
(* derivatives, x = "l", or for perturbations, x = "p"); none when the      *)
(* language cannot express the call.                                        *)
EXTENDS XrtmGen

St(nm, ix, u, v) == [nm |-> nm, ix |-> ix, u |-> u, v |-> v]
Word(s) == St("raw", <<>>, "raw", s)

(* ---- values ---- *)
Leaf(h) == [id |-> h.id, n |-> h.n, norm |-> h.norm]
DLeaf(ids, n) == [ids |-> ids, n |-> n]
UnitOf(op) ==
  CASE op \in {"set_doub_d_tau", "set_fourier_tol"} -> "micro" [] op \in {"set_out_taus", "set_ltau_1", "set_ltau_n"} -> "dy" [] op = "set_out_levels" -> "int" [] OTHER -> "milli"
NameOf == [set_doub_d_tau |-> "doub_d_tau", set_fourier_tol |-> "fourier_tol", set_lambda |-> "lambda", set_planet_r |-> "planet_r",
  set_levels_z |-> "levels_z", set_out_levels |-> "out_levels", set_out_taus |-> "out_taus", set_out_thetas |-> "out_thetas",
  set_F_iso_top |-> "F_iso_top", set_F_iso_bot |-> "F_iso_bot", set_F_0 |-> "F_0", set_theta_0 |-> "theta_0", set_phi_0 |-> "phi_0",
  set_levels_b |-> "levels_b", set_surface_b |-> "surface_b"]
(* the ways to write a sequence of trailing ":" of at most n indices *)
Whole(ix, n) == [k \in 1..(n + 1) |-> ix \o [q \in 1..(k - 1) |-> -1]]
Syntax(I, c, x) ==
  LET op == c.op a == c.a nl == I.cfg.nl nd == I.cfg.nd mx == I.cfg.max_coef
      X(s) == s \o "_" \o x
      du == IF x = "l" THEN "milli" ELSE "step"
      each(nm, ixs, u, v) == [k \in DOMAIN ixs |-> <<St(nm, ixs[k], u, v)>>]
      one(nm, ix, u, v) == << <<St(nm, ix, u, v)>> >>
      nc(i) == IF InIdx(i, nl) THEN NCoef(I, i + 1) ELSE 1       \* of a layer
      dl(ids, n) == DLeaf(ids, n) dcu == IF x = "l" THEN "dcoef" ELSE "dcoefp" dfu == IF x = "l" THEN "dfile" ELSE "dfilep"
      \* derivatives of the coefficients of a layer can be given after the
      \* coefficients, which say how many there are
      known(i) == ~InIdx(i, nl) \/ NCoef(I, i + 1) > 0
      all == \A i \in 0..(nl - 1) : known(i)
      both(nm, ixs, vn, vf) == each(X(nm), ixs, dcu, vn) \o (IF all THEN each(X(nm \o "_files"), ixs, dfu, vf) ELSE <<>>)
      each1(nm, ixs, v) == each(X(nm), ixs, dcu, v) \o each(X(nm \o "_files"), ixs, dfu, v)
      grid(nm) == \* omega, ltau
        CASE op = "set_" \o nm \o "_1" -> one(nm, <<a[1]>>, UnitOf(op), a[2])
          [] op = "set_" \o nm \o "_n" -> each(nm, Whole(<<>>, 1), UnitOf(op), a[1])
          [] op = "set_" \o nm \o "_l_11" -> one(X(nm), <<a[1], a[2]>>, du, a[3])
          [] op = "set_" \o nm \o "_l_n1" -> one(X(nm), <<-1, a[1]>>, du, a[2])
          [] op = "set_" \o nm \o "_l_1n" -> each(X(nm), Whole(<<a[1]>>, 1), du, a[2])
          [] op = "set_" \o nm \o "_l_nn" -> each(X(nm), Whole(<<>>, 2), du, a[1])
      hg(h) == h.id \in {6, 7} /\ h.n = mx /\ h.norm /\ NElem(I.cfg) = 1 IN
  CASE op \in DOMAIN NameOf -> one(NameOf[op], <<>>, UnitOf(op), a[1])
    [] op = "set_pade_params" -> one("pade_params", <<>>, "list", <<[k |-> a[1], u |-> "int"], [k |-> a[2], u |-> "int"]>>)
    [] op = "set_sos_params" -> one("sos_params", <<>>, "list", <<[k |-> a[1], u |-> "int"], [k |-> a[2], u |-> "milli"], [k |-> a[3], u |-> "micro"]>>)
    [] op \in {"set_omega_1", "set_omega_n", "set_omega_l_11", "set_omega_l_n1", "set_omega_l_1n", "set_omega_l_nn"} -> grid("omega")
    [] op \in {"set_ltau_1", "set_ltau_n", "set_ltau_l_11", "set_ltau_l_n1", "set_ltau_l_1n", "set_ltau_l_nn"} -> grid("ltau")
    [] op = "set_coef_1" -> IF a[2].n <= 0 THEN <<>> ELSE
         one("coef", <<a[1]>>, "coef1", Leaf(a[2])) \o (IF a[2].norm /\ a[2].n <= mx THEN one("coef_files", <<a[1]>>, "file", Leaf(a[2])) ELSE <<>>)
         \o (IF hg(a[2]) THEN one("coef_files", <<a[1]>>, "hg", Leaf(a[2])) ELSE <<>>)
    [] op = "set_coef_n" -> IF \E i \in 1..nl : a[1][i].n <= 0 THEN <<>> ELSE
         (IF \A i \in 1..nl : a[1][i].n = mx THEN each("coef", Whole(<<>>, 1), "coef", [i \in 1..nl |-> Leaf(a[1][i])]) ELSE <<>>)
         \o (IF \A i \in 1..nl : a[1][i].norm /\ a[1][i].n <= mx THEN each("coef_files", Whole(<<>>, 1), "file", [i \in 1..nl |-> Leaf(a[1][i])]) ELSE <<>>)
         \o << [i \in 1..nl |-> St("coef", <<i - 1>>, "coef1", Leaf(a[1][i]))] >>
    [] op = "set_coef_l_11" -> IF ~known(a[1]) THEN <<>> ELSE each1("coef", << <<a[1], a[2]>> >>, dl(a[3], nc(a[1])))
    [] op = "set_coef_l_n1" -> both("coef", << <<-1, a[1]>> >>, [i \in 1..nl |-> dl(a[2][i], mx)], [i \in 1..nl |-> dl(a[2][i], nc(i - 1))])
    [] op = "set_coef_l_1n" -> IF ~known(a[1]) THEN <<>> ELSE each1("coef", Whole(<<a[1]>>, 1), [j \in 1..nd |-> dl(a[2][j], nc(a[1]))])
    [] op = "set_coef_l_nn" -> both("coef", Whole(<<>>, 2), [i \in 1..nl |-> [j \in 1..nd |-> dl(a[1][i][j], mx)]], [i \in 1..nl |-> [j \in 1..nd |-> dl(a[1][i][j], nc(i - 1))]])
    [] op = "set_kernel_ampfac" -> one("kernel_ampfac", <<a[1]>>, "milli", a[2])
    [] op = "set_kernel_params_1" -> one("kernel_params", <<a[1], a[2]>>, "milli", a[3])
    [] op = "set_kernel_params_n" -> IF a[2] = <<>> THEN <<>> ELSE each("kernel_params", Whole(<<a[1]>>, 1), "milli", a[2])
    [] op = "set_kernel_ampfac_l_1" -> one(X("kernel_ampfac"), <<a[1], a[2]>>, du, a[3])
    [] op = "set_kernel_ampfac_l_n" -> each(X("kernel_ampfac"), Whole(<<a[1]>>, 1), du, a[2])
    [] op = "set_kernel_params_l_11" -> one(X("kernel_params"), <<a[1], a[2], a[3]>>, du, a[4])
    [] op = "set_kernel_params_l_1n" -> IF a[3] = <<>> THEN <<>> ELSE each(X("kernel_params"), Whole(<<a[1], a[2]>>, 1), du, a[3])
    [] op = "set_kernel_params_l_n1" -> one(X("kernel_params"), <<a[1], -1, a[2]>>, du, a[3])
    [] op = "set_kernel_params_l_nn" -> IF a[2] = <<>> \/ a[2][1] = <<>> THEN <<>> ELSE each(X("kernel_params"), Whole(<<a[1]>>, 2), du, a[2])
    [] op \in {"set_F_iso_top_l_n", "set_F_iso_bot_l_n", "set_surface_b_l_n"} ->
         one(X(CASE op = "set_F_iso_top_l_n" -> "F_iso_top" [] op = "set_F_iso_bot_l_n" -> "F_iso_bot" [] OTHER -> "surface_b"), <<>>, du, a[1])
    [] op = "set_levels_b_l_n" -> one(X("levels_b"), <<>>, du, [l \in 1..(nl + 1) |-> [j \in 1..nd |-> a[1][j][l]]])
    [] OTHER -> <<>>
CanWrite(I, c, x) == Syntax(I, c, x) # <<>>
Write(I, c, x) == LET s == Pick(Syntax(I, c, x)) IN s[R(DOMAIN s)]
(* the calls s, on an instance I *)
RECURSIVE WriteAll(_, _, _)
WriteAll(I, s, x) == IF s = <<>> THEN <<>> ELSE
  IF CanWrite(I, Head(s), x) THEN Pick(Write(I, Head(s), x)) \o WriteAll(IF x = "l" THEN Set(I, Head(s)) ELSE I, Tail(s), x) ELSE WriteAll(I, Tail(s), x)
Expressible(I, s, x) == \A q \in DOMAIN s : s[q].op = "set_kernel_func" \/ CanWrite(I, s[q], x) \/ (s[q].op \in {"set_kernel_params_l_nn", "set_kernel_params_n"})
RECURSIVE AllAccepted(_, _)
AllAccepted(I, s) == IF s = <<>> THEN TRUE ELSE Accepts(I, Head(s)) /\ AllAccepted(Set(I, Head(s)), Tail(s))

(* ---- headers ---- *)
Header(c, nd) ==
  <<St("options", <<>>, "names", SetToSeq(c.opts)), St("solvers", <<>>, "names", SetToSeq(c.solvers)),
    St("max_coef", <<>>, "int", c.max_coef), St("n_quad", <<>>, "int", c.nq), St("n_stokes", <<>>, "int", c.ns), St("n_derivs", <<>>, "int", nd),
    St("n_layers", <<>>, "int", c.nl), St("n_kernels", <<>>, "int", Len(c.kernels)), St("n_kernel_quad", <<>>, "int", c.nkq)>>
  \o (IF c.kernels = <<>> THEN <<>> ELSE <<St("kernels", <<>>, "names", c.kernels)>>)
  \o <<St("n_out_levels", <<>>, "int", c.nlev), St("n_out_thetas", <<>>, "int", c.nu)>>
(* what a header and a body in a string need not say *)
Defaults(s) == LET z(n, v) == s.nm = n /\ s.v = v IN
  CASE s.u = "int" -> z("n_quad", 16) \/ z("n_stokes", 1) \/ z("n_derivs", 0) \/ z("n_layers", 1) \/ z("n_kernels", 0) \/ z("n_kernel_quad", 16) \/ z("n_out_levels", 1) \/ z("n_out_thetas", 0)
    [] s.ix = <<>> /\ s.nm \in {"fourier_tol", "F_iso_top", "F_iso_bot", "phi_0"} -> s.v = 0
    [] OTHER -> FALSE
DefaultedInputs == {"doub_d_tau", "pade_params", "sos_params", "fourier_tol", "F_iso_top", "F_iso_bot", "phi_0"}

(* ---- what must be printed: the coordinates of the rows of a table ---- *)
Rows(I, r) ==
  LET at == IF Has(I, "output_at_levels") THEN I.inp.out_levels[1] ELSE I.inp.out_taus[1]
      nmu == NMu(I.cfg) np == r.nphi ns == I.cfg.ns
      n == nmu * np * ns IN
  [q \in 1..(Len(at) * n) |->
     LET z == q - 1 mu == (z \div (np * ns)) % nmu IN
     <<at[(z \div n) + 1], IF I.cfg.nu = 0 THEN -1 ELSE I.inp.out_thetas[1][mu + 1], r.phis[1][((z \div ns) % np) + 1], z % ns>>]
Depths(I) == IF Has(I, "output_at_levels") THEN I.inp.out_levels[1] ELSE I.inp.out_taus[1]

(* ---- programs that must be refused ---- *)
(* how many of the arguments of a call are indices *)
NIndex(op) ==
  CASE op \in {"set_coef_1", "set_omega_1", "set_ltau_1", "set_kernel_ampfac", "set_kernel_params_n", "set_omega_l_n1", "set_omega_l_1n", "set_ltau_l_n1", "set_ltau_l_1n",
               "set_coef_l_n1", "set_coef_l_1n", "set_kernel_ampfac_l_n", "set_kernel_params_l_nn"} -> 1
    [] op \in {"set_kernel_params_1", "set_omega_l_11", "set_ltau_l_11", "set_coef_l_11", "set_kernel_ampfac_l_1", "set_kernel_params_l_1n", "set_kernel_params_l_n1"} -> 2
    [] op = "set_kernel_params_l_11" -> 3
    [] OTHER -> 0
IndexesOK(c) == \A q \in 1..NIndex(c.op) : c.a[q] >= 0      \* a negative index cannot be written
Spoiler(I) ==   \* a statement that stands for a call that is refused, or none
  LET c == Pick(BadCall(I)) IN IF ~Accepts(I, c) /\ IndexesOK(c) /\ CanWrite(I, c, "l") THEN Syntax(I, c, "l")[1] ELSE <<>>
RECURSIVE Spoiled(_, _)
Spoiled(I, n) == LET s == Pick(Spoiler(I)) IN IF s # <<>> \/ n = 0 THEN s ELSE Spoiled(I, n - 1)
Scalars == {"doub_d_tau", "fourier_tol", "lambda", "planet_r", "F_iso_top", "F_iso_bot", "F_0", "theta_0", "phi_0", "surface_b"}
ArrayNames == {"levels_z", "out_levels", "out_taus", "out_thetas", "levels_b", "omega", "ltau"}
IsArray(s) == s.nm \in ArrayNames /\ (s.nm \in {"omega", "ltau"} => s.ix = <<>>)
Named(s, X) == {q \in DOMAIN s : s[q].nm \in X}
Grown(s) == [s EXCEPT !.v = IF Pct(50) THEN Append(@, @[1]) ELSE Tail(@)]
(* G: [how, head, body, flags, sp] *)
Kinds == 1..20
Bad(G, I, k, sv) ==
  LET at(X) == Pick(R(Named(G.body, X)))
      hd(nm) == CHOOSE q \in DOMAIN G.head : G.head[q].nm = nm
      add(s) == [G EXCEPT !.body = @ \o s]
      others == Solvers \ I.cfg.solvers
      arr == {q \in DOMAIN G.body : IsArray(G.body[q])} IN
  CASE k = 1 -> LET s == Pick(Spoiled(I, 20)) IN IF s = <<>> THEN add(<<St("foo", <<>>, "milli", 1)>>) ELSE add(s)
    [] k = 2 /\ arr # {} -> LET q == Pick(R(arr)) IN [G EXCEPT !.body[q] = Grown(@)]
    [] k = 3 -> [G EXCEPT !.head[hd("options")].v = Append(@, "foo")]
    [] k = 4 -> [G EXCEPT !.head[hd("solvers")].v = Append(@, "foo")]
    [] k = 5 /\ NK(I) > 0 -> [G EXCEPT !.head[hd("kernels")].v[1] = "foo"]
    [] k = 6 /\ NK(I) > 0 -> [G EXCEPT !.head[hd("kernels")].v = Append(@, "roujean")]
    [] k = 7 /\ NK(I) > 1 -> [G EXCEPT !.head[hd("kernels")].v = Tail(@)]
    [] k = 8 -> [G EXCEPT !.head[hd("options")].v = Append(@, R(IF Has(I, "output_at_levels") THEN {"output_at_taus"} ELSE {"output_at_levels"}))]
    [] k = 9 /\ Named(G.body, Scalars) # {} -> LET q == at(Scalars) IN [G EXCEPT !.body[q].v = <<@, @>>]
    [] k = 10 -> add(<<St("foo", <<>>, "milli", 1)>>)
    [] k = 11 -> add(<<Word(IF G.how = "string" THEN R({"phi_0 = 1.", "phi_0", "phi_0 {1.}", "phi_0 'x'"}) ELSE R({"phi_0 1.", "phi_0 =", "phi_0 = {1.}", "phi_0 = 'x'"}))>>)
    [] k = 12 -> [G EXCEPT !.flags = Append(@, R({"-foo", "-solver foo", "-solver", "-out_phis x"}))]
    [] k = 13 /\ others # {} -> [G EXCEPT !.flags = Append(@, "-solver " \o R(others))]
    [] k = 14 -> [G EXCEPT !.sp = "extra"]
    [] k = 15 /\ G.how # "stdin" -> [G EXCEPT !.sp = IF G.how = "file" THEN "missing" ELSE "nosep"]
    [] k = 16 -> add(<<St("delta", <<>>, "delta", [j \in 1..(IF I.cfg.nd = 0 THEN 1 ELSE I.cfg.nd) |-> 1024])>>)
    [] k = 17 -> add(<<St("omega_p", <<0, 0>>, "step", 100)>>)
    [] k = 18 /\ Deriv(I) -> [G EXCEPT !.head = Append(@, St("fd", <<>>, "int", 2))]
    [] k = 20 /\ Deriv(I) /\ HasCoef(I) -> LET v == DLeaf(I.inp.coef_l[1][1], 1) IN   \* before the coefficients
         LET w == Pick(R(1..3)) IN
         [G EXCEPT !.body = <<CASE w = 1 -> St("coef_l", <<0, 0>>, "dcoef", v) [] w = 2 -> St("coef_files_l", <<0, 0>>, "dfile", v) [] OTHER -> St("coef_l", <<0>>, "dcoef", [j \in 1..I.cfg.nd |-> v])>> \o @]
    [] OTHER -> [G EXCEPT !.head[hd("n_layers")].v = 0]
=============================================================================

------------------------------ MODULE XrtmCfg -------------------------------
(* Creation requests: families that together exercise every rule of the     *)
(* creation decision table alone and in pairs.  Every request is created,   *)
(* and its resolved form is given to the stand-alone checks.                *)
(* Exhaustive where Part says so; "random" is drawn with TLC -simulate.     *)
EXTENDS XrtmBase, Json, SequencesExt, FiniteSetsExt, TLCExt
CONSTANTS Part, Num
VARIABLES n, out

S0 == {"output_at_levels", "source_solar"}
B(o, s) == [opts |-> o, solvers |-> s, max_coef |-> 9, nq |-> 2, ns |-> 1, nd |-> 0, nl |-> 2, nth |-> 1,
            kernels |-> <<"lambertian">>, nkq |-> 4, nlev |-> 2, nu |-> 0]
Bases == <<
  B(S0, {"eig_bvp"}),
  [B(S0 \cup {"calc_derivs"}, {"eig_add", "doub_add"}) EXCEPT !.nd = 2, !.nlev = 1],
  [B(S0 \cup {"vector", "delta_m"}, {"eig_bvp", "mem_bvp"}) EXCEPT !.ns = 4],
  [B(S0 \cup {"n_t_tms"}, {"two_stream", "eig_bvp", "single", "sos"}) EXCEPT !.nq = 1],
  [B({"output_at_taus", "source_solar", "source_thermal", "sfi"}, {"eig_bvp"}) EXCEPT !.nu = 2, !.nlev = 3],
  [B(S0, {"doub_add"}) EXCEPT !.nlev = 1, !.nq = 3, !.nu = 1],
  [B({"output_at_levels"}, {"eig_bvp", "eig_add"}) EXCEPT !.kernels = <<"cox_munk", "li_dense">>],
  [B(S0, {}) EXCEPT !.nu = 1] >>
Toggle(S, T) == (S \ T) \cup (T \ S)
(* F1: every base with every set of up to two options toggled *)
Toggles == {{}} \cup {{a} : a \in Options} \cup {{a, b} : a, b \in Options}
F1 == {[Bases[b] EXCEPT !.opts = Toggle(@, T)] : b \in DOMAIN Bases, T \in Toggles}
(* F2: contexts that exclude solvers, with every single solver, every pair
   and the full set of those allowed *)
Ctx == { [Bases[1] EXCEPT !.nq = q, !.nlev = lv, !.nu = u, !.nth = t, !.opts = S0 \cup x] :
         q \in 1..4, lv \in {1, 2, 3}, u \in {0, 1}, t \in {1, 2}, x \in
         {{}, {"sfi"}, {"delta_m"}, {"n_t_tms"}, {"no_azimuthal"}, {"source_thermal"}, {"top_down_adding"}, {"quad_lobatto"}} }
       \cup { [Bases[1] EXCEPT !.opts = o, !.nq = q, !.nd = IF "calc_derivs" \in o THEN 1 ELSE 0, !.nlev = lv] :
         q \in 1..3, lv \in {1, 2}, o \in {{"output_at_levels"}, {"output_at_taus"}, {"output_at_taus", "source_solar"},
              {"output_at_levels", "source_thermal"}, S0 \cup {"stack_reuse_adding", "calc_derivs"}, S0 \cup {"bottom_up_adding"},
              S0 \cup {"calc_derivs"}, S0 \cup {"vector"}} }
Allowed(c) == Solvers \ Excluded(Resolve(c.opts, c.ns), c)
F2 == UNION {{[c EXCEPT !.solvers = {s}] : s \in Solvers} \cup {[c EXCEPT !.solvers = Allowed(c)]}
             \cup {[c EXCEPT !.solvers = Allowed(c) \cup {s}] : s \in Solvers \ Allowed(c)} : c \in Ctx}
(* F3: the counts around their edges *)
Counts(c) ==
  {[c EXCEPT !.max_coef = v] : v \in {-1, 0, 1, 2 * c.nq, 2 * c.nq + 1}} \cup {[c EXCEPT !.nq = v] : v \in {-1, 0, 1, 2, 3, 4, 5}}
  \cup {[c EXCEPT !.ns = v] : v \in -1..5} \cup {[c EXCEPT !.nd = v] : v \in -1..3} \cup {[c EXCEPT !.nl = v] : v \in -1..3}
  \cup {[c EXCEPT !.nth = v] : v \in -1..2} \cup {[c EXCEPT !.nlev = v] : v \in -1..4} \cup {[c EXCEPT !.nu = v] : v \in -1..3}
  \cup {[c EXCEPT !.nkq = v] : v \in -1..2} \cup {[c EXCEPT !.kernels = v, !.nkq = q] : q \in {0, 4}, v \in
        {<<>>, <<"bad">>, <<"lambertian", "bad">>, <<"rahman", "rahman">>} \cup {<<k>> : k \in Kernels}}
F3 == UNION {Counts(Bases[b]) \cup UNION {Counts([Bases[b] EXCEPT !.opts = Toggle(@, {x})]) :
             x \in {"delta_m", "calc_derivs", "vector", "sfi", "top_down_adding", "bottom_up_adding"}} : b \in DOMAIN Bases}

R(X) == RandomElement(X)
Pct(k) == RandomElement(1..100) <= k
Pick(T) == LET v == TLCEval(T) IN IF TLCFP(v) = 0 THEN v ELSE v
Rand(z) == Pick(LET c == Bases[R(DOMAIN Bases)] IN
  [c EXCEPT !.opts = Toggle(@, {x \in Options : Pct(R({3, 6, 12}))}),
            !.solvers = IF Pct(40) THEN @ ELSE {x \in Solvers : Pct(R({10, 30}))},
            !.max_coef = R({0, 2, 4, 5, 9, 12}), !.nq = IF Pct(50) THEN @ ELSE R(1..4), !.ns = IF Pct(70) THEN @ ELSE R(1..4),
            !.nd = IF Pct(70) THEN @ ELSE R(0..3), !.nl = R(1..4), !.nth = IF Pct(90) THEN 1 ELSE 2,
            !.nlev = IF Pct(60) THEN @ ELSE R(1..4), !.nu = IF Pct(60) THEN @ ELSE R(0..3),
            !.kernels = [i \in 1..R(0..3) |-> R(Kernels)], !.nkq = R({0, 1, 4})])

(* one state per request; the invariant writes it out *)
InitR == n = 0 /\ out = Rand(0)
InitF == n = 0 /\ out \in (CASE Part = "F1" -> F1 [] Part = "F2" -> F2 [] Part = "F3" -> F3)
NextR == n < Num /\ n' = n + 1 /\ \E c \in {Rand(n)} : out' = c
Stop == FALSE /\ UNCHANGED <<n, out>>
Emit == PrintT(ToJson([c |-> out, o |-> IF out.ns >= 1 THEN ResolvedOf(out) ELSE out.opts, ok |-> CreateLegal(out)]))
=============================================================================

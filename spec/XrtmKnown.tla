----------------------------- MODULE XrtmKnown ------------------------------
(* Genuine defects of the library that are recorded rather than repaired,   *)
(* as predicates over a configuration, a solver and the outputs asked for.  *)
(* known_findings.txt describes each by its name.                           *)
EXTENDS XrtmInst

(* Solves that read or write memory they must not: once one was made nothing
   that happens in the process is constrained any more, so generated
   behaviours do not contain them; each is shown by a case of its own. *)
Hazards(c, sv, outs) == <<
  (* reusing an adding stack with derivatives *)
  <<"stack_reuse", "stack_reuse_adding" \in c.opts /\ sv \in {"doub_add", "eig_add", "pade_add"}>>,
  (* the few stream solvers read the solar beam without a solar source *)
  <<"few_stream_no_solar", sv \in FewStream /\ "source_solar" \notin c.opts>>,
  (* nor do they have derivatives or polarization, which is not refused *)
  <<"few_stream_unsupported", sv \in FewStream /\ c.opts \cap {"calc_derivs", "vector"} # {}>> >>
Hazard(c, sv, outs) == \E i \in DOMAIN Hazards(c, sv, outs) : Hazards(c, sv, outs)[i][2]

(* the findings that explain what is wrong with a solve: name, which blocks of
   the answer are concerned ("all" or "deriv"), and when *)
KnownList(p, I, r) ==
  LET c == I.cfg sv == r.solver
      hz == Hazards(c, sv, r.outs) IN
  [k \in DOMAIN hz |-> <<hz[k][1], "all", hz[k][2]>>] \o <<
  (* second order scattering knows the top only: it answers with the radiance
     of the top at the first position, whatever it is, and zeros at the others *)
  <<"two_os_position", "all", sv = "two_os" /\ ("output_at_taus" \in c.opts \/ (IsSet(I.inp.out_levels) /\ I.inp.out_levels[1][1] # 0))>>,
  (* with source function integration second order scattering calculates
     nothing at the quadrature angles; mean radiance and flux come of them *)
  <<"two_os_sfi_flux", "plain", sv = "two_os" /\ p = "P27">>,
  (* with the single scattering taken out of the series of azimuth modes, the
     beam reflected by the surface is taken out with all its modes and given
     back with the first only *)
  <<"fourier_surface", "all", p = "P10" /\ sv # "single" /\ {"n_t_tms", "four_conv_new", "source_solar"} \subseteq c.opts /\ IsSet(I.inp.fourier_tol) /\ I.inp.fourier_tol[1] > 0
     /\ \E q \in DOMAIN c.kernels : c.kernels[q] # "lambertian">>,
  (* the eigenvalues of a layer that does not scatter some Stokes components
     coincide; their derivatives are taken as zero, also when a derivative of
     the phase function or of the single scattering albedo separates them *)
  <<"equal_eigenvalues", "deriv", sv \in {"eig_add", "eig_bvp", "mem_bvp"} /\ "vector" \in c.opts /\ Deriv(I) /\ p \in {"P11", "P12"}
     /\ \E i \in 1..c.nl : IsSet(I.inp.coef[i]) /\ (\E j \in 1..c.nd : \E q \in 1..c.max_coef : I.inp.coef_l[i][j][q] # 0)
        /\ (I.inp.coef[i][1].id % 10 \in {1, 2} \/ (I.inp.coef[i][1].id \div 10) % 10 = 1 \/ I.inp.coef[i][1].id \div 100 > 0 \/ I.inp.coef[i][1].n = 1)>>
  >>
RECURSIVE FirstTag(_, _, _)
FirstTag(l, i, X) == IF i > Len(l) THEN "" ELSE IF l[i][3] /\ l[i][2] \in X THEN l[i][1] ELSE FirstTag(l, i + 1, X)
KnownTag(p, I, r) == LET l == KnownList(p, I, r) IN [v |-> FirstTag(l, 1, {"all"}), d |-> FirstTag(l, 1, {"all", "deriv"})]
PlainTag(p, I, r) == LET t == FirstTag(KnownList(p, I, r), 1, {"plain"}) IN [v |-> t, d |-> t]
Untagged == [v |-> "", d |-> ""]
MoreTag(a, b) == [v |-> IF a.v # "" THEN a.v ELSE b.v, d |-> IF a.d # "" THEN a.d ELSE b.d]
=============================================================================

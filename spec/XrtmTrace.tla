------------------------------ MODULE XrtmTrace ------------------------------
(* Is a recorded execution of the library a behaviour of the instance        *)
(* specification?  trace.json is a sequence of cases, each a sequence of     *)
(* events: the call, and what was observed.                                  *)
(*   rc  : "ok", "err" (the error value) or anything else                    *)
(*   msg : a message was printed                                             *)
(*   sn  : snapshot: every getter                                            *)
(*   eq  : earlier solves (line numbers of this case) with the same answer   *)
(*   wr  : every requested output was written                                *)
(*   pf  : the answer does not depend on what fresh memory contains (P09);   *)
(*         the C interface gives the same answer (P22)                       *)
(*         calls made alone give the same answer (threads, P08)              *)
(*   races : how many reports there are of two threads that use, without     *)
(*         order, the same memory, while each calls instances of its own     *)
(*   fin : every answer is a finite number                                   *)
(* Each line that is no step of the specification is a violation, reported   *)
(* with the property it contradicts; the rest of that case is skipped unless *)
(* the state is still known.                                                 *)
EXTENDS XrtmKnown, Json, SequencesExt
Cases == JsonDeserialize("trace.json")
CONSTANT Compare  \* which answers must agree, and the property that says so:
                  \*   "P01": those of the same configuration and inputs
                  \*   other: the n-th of an instance and the n-th of its twin
VARIABLES k, l, S, ord, memo, viol, skip, stat,
          mem   \* [peak: most memory in use so far, live: most blocks, quiet: readings since something was done that was not done before, grown: how often more was in use, seen: what was done]

Raw == Cases[k][l]
(* JSON has no sets *)
Ev == IF Raw.op \in {"create", "check"} THEN [Raw EXCEPT !.c = [Raw.c EXCEPT !.opts = Range(@), !.solvers = Range(@)]]
      ELSE IF Raw.op = "solve" THEN [Raw EXCEPT !.r = [Raw.r EXCEPT !.outs = Range(@)]] ELSE Raw
Tag(p) == IF Ev.op = "solve" THEN KnownTag(p, S[Ev.i], Ev.r).v ELSE ""
E(p, why) == [property |-> IF Compare = "P22" THEN "P22" ELSE IF Compare = "threads" /\ p = "P09" THEN "P08" ELSE p, case |-> k, line |-> l, why |-> why, known |-> Tag(p)]

(* ---- snapshots ---- *)
ModeOff(n) == Ones(n, -999)
CoefSnapOK(I, i, s) ==
  IF ~IsSet(I.inp.coef[i]) THEN s = <<>>
  ELSE /\ s # <<>> /\ s[1].n = I.inp.coef[i][1].n
       /\ (s[1].n > 0 => (IF I.inp.coef[i][1].norm THEN I.inp.coef[i][1].id ELSE -I.inp.coef[i][1].id) \in Range(s[1].ids))
CoefLSnapOK(I, i, s) ==
  \A j \in 1..I.cfg.nd : s[j] = [m \in 1..(IF NCoef(I, i) > 1 THEN NCoef(I, i) - 1 ELSE 0) |-> I.inp.coef_l[i][j][m + 1]]
SnapWrong(I, s) ==
  LET n == I.inp c == I.cfg
      f(name, ok) == IF ok THEN {} ELSE {name}
      th == Has(I, "source_thermal") IN
  UNION {
    f("options", Range(s.opts) = c.opts), f("solvers", Range(s.solvers) = c.solvers),
    f("counts", s.counts = <<c.max_coef, c.nq, c.ns, NElem(c), c.nd, c.nl>>),
    f("more counts", s.nk = Len(c.kernels) /\ s.rest = <<c.nkq, c.nlev, c.nu>>), f("kernels", s.kernels = c.kernels),
    \* the parameters of a solver can be read only where the solver was asked for
    f("doub_d_tau", s.doub_d_tau = (IF "doub_add" \in c.solvers THEN n.doub_d_tau ELSE <<>>)),
    f("pade_params", s.pade = (IF "pade_add" \in c.solvers THEN n.pade ELSE <<>>)),
    f("sos_params", s.sos = (IF "sos" \in c.solvers THEN n.sos ELSE <<>>)),
    f("fourier_tol", s.fourier_tol = n.fourier_tol), f("lambda", s.lambda = n.lambda), f("planet_r", s.planet_r = n.planet_r),
    f("levels_z", s.levels_z = n.levels_z), f("out_levels", s.out_levels = n.out_levels), f("out_taus", s.out_taus = n.out_taus),
    f("out_thetas", s.out_thetas = n.out_thetas), f("F_iso_top", s.F_iso_top = n.F_iso_top), f("F_iso_bot", s.F_iso_bot = n.F_iso_bot),
    f("F_iso_top_l", s.F_iso_top_l = n.F_iso_top_l), f("F_iso_bot_l", s.F_iso_bot_l = n.F_iso_bot_l),
    f("F_0", s.F_0 = n.F_0), f("theta_0", s.theta_0 = n.theta_0), f("phi_0", s.phi_0 = n.phi_0),
    f("levels_b", s.levels_b = n.levels_b), f("surface_b", s.surface_b = n.surface_b),
    f("levels_b_l", s.levels_b_l = (IF th THEN n.levels_b_l ELSE Ones(c.nd, ModeOff(c.nl + 1)))),
    f("surface_b_l", s.surface_b_l = (IF th THEN n.surface_b_l ELSE ModeOff(c.nd))),
    f("omega", s.omega = n.omega), f("ltau", s.ltau = n.ltau), f("omega_l", s.omega_l = n.omega_l), f("ltau_l", s.ltau_l = n.ltau_l),
    f("coef", \A i \in 1..c.nl : CoefSnapOK(I, i, s.coef[i])), f("coef_l", \A i \in 1..c.nl : CoefLSnapOK(I, i, s.coef_l[i])),
    f("kernel_ampfac", s.kamp = n.kamp), f("kernel_params", s.kpar = n.kpar),
    f("kernel_ampfac_l", s.kamp_l = n.kamp_l), f("kernel_params_l", s.kpar_l = n.kpar_l) }

(* ---- the key under which answers must agree ---- *)
(* inputs that the answer of this solver cannot depend on are left out *)
Seen(I) == [I.inp EXCEPT !.coef_l = [i \in 1..I.cfg.nl |-> [j \in 1..I.cfg.nd |->
              [m \in 1..I.cfg.max_coef |-> IF m <= NCoef(I, i) /\ m > 1 THEN @[i][j][m] ELSE 0]]]]
Relevant(I, sv) ==
  [Seen(I) EXCEPT !.doub_d_tau = IF sv = "doub_add" THEN @ ELSE <<>>, !.pade = IF sv = "pade_add" THEN @ ELSE <<>>,
                  !.sos = IF sv = "sos" THEN @ ELSE <<>>, !.lambda = <<>>]
Ord(i) == IF i \in DOMAIN ord THEN ord[i] ELSE 0
Key(i, I, r) == IF Compare = "P01" THEN <<I.cfg, Relevant(I, r.solver), r>> ELSE IF Compare \in {"P09", "threads"} THEN <<l>> ELSE <<i % 10, Ord(i), Relevant(I, r.solver), r>>
(* (pages of work space may still be made larger in the first repetitions) *)
NoMem == [peak |-> -1, live |-> -1, quiet |-> 0, grown |-> 0, seen |-> {}]
(* what calls do again needs no more memory *)
Doing == CASE Ev.op = "solve" -> <<"solve", Ev.i, <<S[Ev.i].inp, S[Ev.i].pattern, Ev.r>> >>
           [] Ev.op = "update" -> <<"update", Ev.i, Pattern(S[Ev.i])>>
           [] Ev.op \in {"create", "destroy", "check", "mem", "get", "snap", "threads"} -> <<>>
           [] Ev.op = "clear" -> <<"clear", Ev.i, <<>> >>
           [] OTHER -> <<Ev.op, Ev.i, Ev.a>>
MemNext == IF Compare # "P09" THEN mem
           ELSE IF Ev.op \in {"create", "destroy"} /\ Ev.rc = "ok" THEN NoMem
           ELSE IF Ev.op = "mem" THEN [mem EXCEPT !.peak = IF Ev.bytes > @ THEN Ev.bytes ELSE @, !.live = IF Ev.live > @ THEN Ev.live ELSE @, !.quiet = @ + 1,
                                                !.grown = IF Ev.bytes > mem.peak /\ mem.quiet >= 4 THEN @ + 1 ELSE @]
           ELSE IF Doing = <<>> \/ Doing \in mem.seen THEN mem
           ELSE [mem EXCEPT !.quiet = 0, !.grown = 0, !.seen = @ \cup {Doing}]

Init == k = 1 /\ l = 1 /\ S = <<>> /\ ord = <<>> /\ memo = {} /\ viol = <<>> /\ skip = FALSE /\ mem = NoMem
        /\ stat = [ok |-> 0, rej |-> 0, solves |-> 0, compared |-> 0, snaps |-> 0, unc |-> 0, mems |-> 0, gets |-> 0]

NextLine == IF l < Len(Cases[k]) THEN k' = k /\ l' = l + 1 ELSE k' = k + 1 /\ l' = 1
Fresh == l = Len(Cases[k])   \* the last line of a case
Clear == S' = <<>> /\ ord' = <<>> /\ memo' = {} /\ skip' = FALSE /\ mem' = NoMem
Put(i, I) == [x \in DOMAIN S \cup {i} |-> IF x = i THEN I ELSE S[x]]
Drop(i) == [x \in DOMAIN S \ {i} |-> S[x]]
Bump(f) == stat' = [stat EXCEPT ![f] = @ + 1]

Died == Ev.rc \in {"DIED", "TIMEOUT"}
(* advance; vs: violations of this line; kn: is the state known afterwards *)
Adv(S1, memo1, vs, kn) ==
  /\ viol' = viol \o vs \o (IF Compare = "P09" /\ ~Died /\ "pf" \in DOMAIN Ev /\ ~Ev.pf
                            THEN <<E("P09", "the answer depends on what fresh memory contains")>>
                            ELSE IF Compare = "P22" /\ ~Died /\ "pf" \in DOMAIN Ev /\ ~Ev.pf
                            THEN <<E("P22", "the C interface answers differently: " \o Ev.op)>>
                            ELSE IF Compare = "threads" /\ ~Died /\ "pf" \in DOMAIN Ev /\ ~Ev.pf
                            THEN <<E("P08", "answers differently while calls on other instances run: " \o Ev.op)>> ELSE <<>>)
  /\ IF Fresh THEN Clear
     ELSE /\ mem' = MemNext /\ S' = S1 /\ memo' = memo1 /\ skip' = ~kn
          /\ ord' = IF Ev.op = "solve" /\ Ev.rc = "ok" THEN [x \in DOMAIN ord \cup {Ev.i} |-> IF x = Ev.i THEN Ord(x) + 1 ELSE ord[x]] ELSE ord
  /\ NextLine

RcWrong(p, ok) == (* accepted exactly when the specification accepts, with the error value and a message otherwise *)
  IF ok THEN (IF Ev.rc = "ok" THEN <<>> ELSE <<E(p, "refused a legal call: " \o Ev.rc)>>)
  ELSE (IF Ev.rc = "ok" THEN <<E(p, "accepted an illegal call")>>
        ELSE IF Ev.rc # "err" THEN <<E(p, "error value is " \o Ev.rc)>>
        ELSE IF ~Ev.msg THEN <<E(p, "error without a message")>> ELSE <<>>)

StepDied == Died /\ Adv(S, memo, <<E("P09", "the process ended: " \o Ev.rc)>>, FALSE) /\ UNCHANGED stat

StepCreate == Ev.op = "create" /\
  LET ok == CreateLegal(Ev.c)
      c == Created(Ev.c)
      v == RcWrong("P06", ok)
      w == IF ok /\ Ev.rc = "ok" /\ ~(Range(Ev.opts) = c.opts /\ Range(Ev.solvers) = c.solvers)
           THEN <<E("P06", "options or solvers reported")>> ELSE <<>>
  IN /\ Adv(IF ok /\ Ev.rc = "ok" THEN Put(Ev.i, NewInst(c)) ELSE Drop(Ev.i), memo, v \o w, (Ev.rc = "ok") = ok)
     /\ Bump(IF ok THEN "ok" ELSE "rej")

(* the stand-alone checks, given a completed configuration: v is what the
   checks of options, counts and solvers returned ("ok" or the error value),
   and whether they printed when they were asked not to *)
StepCheck == Ev.op = "check" /\
  LET o == Ev.c.opts
      want == <<OptionsLegal(o), CountsLegal(o, Ev.c), SolversLegal(o, Ev.c)>>
      bad == {i \in 1..3 : Ev.v[i] # (IF want[i] THEN "ok" ELSE "err") \/ Ev.q[i] # Ev.v[i]} IN
  /\ Adv(S, memo, IF bad # {} THEN <<E("P06", "stand-alone check " \o ToString(bad) \o " of " \o ToString(Ev.v))>>
                 ELSE IF Ev.qm THEN <<E("P06", "a check asked to be silent printed a message")>>
                 ELSE IF (\E i \in 1..3 : ~want[i]) /\ ~Ev.msg THEN <<E("P06", "error without a message")>> ELSE <<>>, TRUE)
  /\ Bump(IF want = <<TRUE, TRUE, TRUE>> THEN "ok" ELSE "rej")

(* memory in use; blocks that are kept may be enlarged until they fit all *)
(* instances share nothing: their calls may be made at the same time *)
StepThreads == Ev.op = "threads" /\
  Adv(S, memo, IF Ev.races > 0 THEN <<E("P08", "calls on different instances use the same memory")>> ELSE <<>>, TRUE) /\ UNCHANGED stat

StepMem == Ev.op = "mem" /\
  LET w == IF DOMAIN S = {} /\ (Ev.live # 0 \/ Ev.bytes # 0) THEN <<E("P09", "memory is in use without an instance: " \o ToString(<<Ev.live, Ev.bytes>>))>>
           ELSE IF mem.quiet >= 4 /\ (Ev.live > mem.live \/ (Ev.bytes > mem.peak /\ mem.grown >= 2)) THEN <<E("P09", "memory grew from " \o ToString(mem.peak) \o " to " \o ToString(Ev.bytes) \o " in calls made before")>>
           ELSE <<>> IN
  Adv(S, memo, w, TRUE) /\ Bump("mems")
(* getters with any indices *)
GetOK(I, f, a) ==
  LET L == InIdx(a[1], I.cfg.nl) D(j) == Deriv(I) /\ InIdx(j, I.cfg.nd) K == KIdx(I, a[1])
      NC == IF IsSet(I.inp.coef[a[1] + 1]) THEN NCoef(I, a[1] + 1) ELSE 0 IN
  CASE f \in {"F_iso_top_l", "F_iso_bot_l"} -> D(a[1])
    [] f \in {"levels_b_l", "surface_b_l"} -> Has(I, "source_thermal") /\ D(a[1])
    [] f = "n_coef" -> L /\ IsSet(I.inp.coef[a[1] + 1])
    [] f = "omega" -> L /\ IsSet(I.inp.omega[a[1] + 1])
    [] f = "ltau" -> L /\ IsSet(I.inp.ltau[a[1] + 1])
    [] f \in {"omega_l", "ltau_l"} -> L /\ D(a[2])
    [] f = "coef" -> L /\ InIdx(a[2], NElem(I.cfg)) /\ InIdx(a[3], NC)
    [] f = "coef_l" -> L /\ D(a[2]) /\ InIdx(a[3], NElem(I.cfg)) /\ InIdx(a[4], NC)
    [] f = "kernel" -> K
    [] f = "kernel_ampfac" -> K /\ IsSet(I.inp.kamp[a[1] + 1])
    [] f = "kernel_params" -> K /\ InIdx(a[2], NPar(I, a[1])) /\ IsSet(I.inp.kpar[a[1] + 1][a[2] + 1])
    [] f = "kernel_ampfac_l" -> K /\ D(a[2])
    [] f = "kernel_params_l" -> K /\ D(a[2]) /\ InIdx(a[3], NPar(I, a[1]))
StepGet == Ev.op = "get" /\ Adv(S, memo, RcWrong("P09", GetOK(S[Ev.i], Ev.f, Ev.a)), TRUE) /\ Bump("gets")

StepSet == Ev.op \notin {"create", "check", "update", "clear", "snap", "solve", "destroy", "mem", "get", "threads"} /\
  LET I == S[Ev.i]
      ok == Accepts(I, Ev)
  IN /\ Adv(Put(Ev.i, Set(I, Ev)), memo, RcWrong("P05", ok), (Ev.rc = "ok") = ok)
     /\ Bump(IF ok THEN "ok" ELSE "rej")

StepUpdate == Ev.op = "update" /\
  LET I == S[Ev.i] IN
  /\ Adv(Put(Ev.i, Update(I)), memo, RcWrong("P07", UpdateOK(I)), (Ev.rc = "ok") = UpdateOK(I))
  /\ Bump(IF UpdateOK(I) THEN "ok" ELSE "rej")

StepClear == Ev.op = "clear" /\ Adv(S, memo, <<>>, TRUE) /\ UNCHANGED stat
StepDestroy == Ev.op = "destroy" /\ Adv(Drop(Ev.i), memo, RcWrong("P09", TRUE), TRUE) /\ UNCHANGED stat

PrevRejected == l > 1 /\ "rc" \in DOMAIN Cases[k][l - 1] /\ Cases[k][l - 1].rc # "ok"
StepSnap == Ev.op = "snap" /\
  LET w == SnapWrong(S[Ev.i], Ev.sn) IN
  /\ Adv(S, memo, IF w = {} THEN <<>> ELSE <<E(IF PrevRejected THEN "P04" ELSE "P03", ToString(w))>>, w = {})
  /\ Bump("snaps")

StepSolve == Ev.op = "solve" /\
  LET I == S[Ev.i]
      ok == SolveOK(I, Ev.r)
      def == Defined(I)       \* otherwise the documented use was not followed
      v == RcWrong("P07", ok)
      key == Key(Ev.i, I, Ev.r)
      same == {m \in memo : m[1] = key}
      bad == {m \in same : m[2] \notin Range(Ev.eq)}
      p == Compare
      u == IF ok /\ Ev.rc = "ok" /\ bad # {} THEN <<E(p, "answer differs from line " \o ToString({m[2] : m \in bad}))>> ELSE <<>>
      w == IF ok /\ Ev.rc = "ok" /\ ~Ev.wr THEN <<E("P07", "an output was not written")>>
           ELSE IF ok /\ Ev.rc = "ok" /\ ~Ev.fin THEN <<E("P07", "an answer is not a finite number")>> ELSE <<>>
  IN
  IF ok /\ ~def THEN Adv(S, memo, <<>>, TRUE) /\ Bump("unc")
  ELSE
  /\ Adv(S, IF ok /\ Ev.rc = "ok" THEN memo \cup {<<key, l>>} ELSE memo, v \o u \o w, TRUE)
  /\ stat' = [stat EXCEPT !.solves = @ + 1, !.compared = @ + Cardinality(same)]

StepSkip == skip /\ (IF Fresh THEN Clear ELSE UNCHANGED <<S, ord, memo, skip, mem>>) /\ NextLine /\ UNCHANGED <<viol, stat>>
Next ==
  \/ /\ k <= Len(Cases)
     /\ \/ skip /\ StepSkip
        \/ ~skip /\ ~Died /\ (StepCreate \/ StepCheck \/ StepSet \/ StepUpdate \/ StepClear \/ StepDestroy \/ StepSnap \/ StepMem \/ StepThreads \/ StepGet \/ StepSolve)
        \/ ~skip /\ StepDied
  \/ /\ k = Len(Cases) + 1 /\ k' = k + 1 /\ PrintT(ToJson([viol |-> viol, stat |-> stat]))
     /\ UNCHANGED <<l, S, ord, memo, viol, skip, stat, mem>>
TraceView == <<k, l>>
(* every line was consumed: one state per line, the end, and the first state *)
Lines == FoldSeq(LAMBDA c, n : n + Len(c), 0, Cases)
AllConsumed == TLCGet("stats").diameter = Lines + 2
=============================================================================

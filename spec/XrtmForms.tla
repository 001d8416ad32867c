------------------------------ MODULE XrtmForms ------------------------------
(* Judges recorded evaluations of the forms of XrtmEquiv.  A residual is    *)
(* given in centi-decades (100 log10 of its size relative to its scale).    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Cases == JsonDeserialize("trace.json")
VARIABLES k, l, viol, stat
vars == <<k, l, viol, stat>>
In(s, X) == \E i \in DOMAIN s : s[i] \in X
Eigen == {"eig_add", "eig_bvp", "mem_bvp"}   \* nearly lossless layers cost digits
(* accuracy with which a form must vanish *)
Tol(f) ==
  CASE f.cls = "same"   -> IF In(f.svs, Eigen) THEN -600 ELSE IF f.p = "P17" THEN -700 ELSE -900
    [] f.cls = "sum"    -> IF In(f.svs, Eigen) THEN -600 ELSE -850
    [] f.cls = "alg"    -> IF In(f.svs, {"doub_add"}) THEN -450   \* the first thin layer may be chosen differently
                              ELSE IF In(f.svs, Eigen \cup {"pade_add", "six_stream", "four_stream"}) THEN -500 ELSE -700
    [] f.cls = "cut"    -> IF In(f.svs, {"sos", "pade_add"}) THEN -200 ELSE IF In(f.svs, {"doub_add"}) THEN -400 ELSE -450
    [] f.cls = "energy" -> IF In(f.svs, {"sos", "pade_add"}) THEN -200 ELSE -300
    [] f.cls = "energy2" -> IF In(f.svs, {"sos", "pade_add"}) THEN -200 ELSE IF In(f.svs, {"doub_add"}) THEN -450 ELSE -650
    [] f.cls = "sign"   -> -300
    [] f.cls = "solver" -> IF In(f.svs, {"sos"}) THEN -175 ELSE IF In(f.svs, {"doub_add"}) THEN -350 ELSE -700
    [] f.cls = "recip" -> IF In(f.svs, {"sos"}) THEN -150 ELSE IF In(f.svs, {"doub_add"}) THEN -350 ELSE -500
    [] f.cls \in {"greens", "sfi", "oneway"} -> -500
    [] f.cls = "flat" -> -400
    [] f.cls = "equil" -> -700
    [] f.cls = "thin" -> -100
    [] f.cls = "thin2" -> -150
    [] f.cls = "autosolver" -> -25
    [] f.cls = "dsolver" -> IF In(f.svs, {"sos"}) THEN -40 ELSE IF In(f.svs, {"doub_add"}) THEN -250 ELSE -500
    [] f.cls = "embed" -> IF In(f.svs, {"sos"}) THEN -350 ELSE IF In(f.svs, Eigen \cup {"doub_add"}) THEN -450 ELSE -500
    [] f.cls = "kinked" -> -250
    [] f.cls = "fourier" -> -350
    [] f.cls = "dfourier" -> -300
    [] f.cls = "quotient" -> -800
    [] f.cls = "printed" -> -550
    [] f.cls = "limit"  -> IF In(f.svs, {"sos", "pade_add", "doub_add"}) THEN -300 ELSE -450
Ev == Cases[k][l]
E(p, why, kn) == [property |-> p, case |-> k, line |-> l, why |-> why, known |-> kn]
Init == k = 1 /\ l = 1 /\ viol = <<>> /\ stat = [forms |-> 0, solves |-> 0, failed |-> 0, programs |-> 0]
Step == k <= Len(Cases) /\
  /\ viol' = viol \o
       (IF Ev.op = "form" THEN
          (IF Ev.have /\ Ev.res > Tol(Ev)
           THEN <<E(Ev.p, Ev.cls \o " does not hold for " \o ToString(Ev.svs) \o " in " \o Ev.b \o ": 10^(" \o ToString(Ev.res) \o "/100)", Ev.known)>> ELSE <<>>)
        ELSE IF Ev.op = "fd_snap" THEN
          (IF Ev.got = Ev.want /\ Ev.full /\ (\A i \in DOMAIN Ev.gotc : \A j \in DOMAIN Ev.gotc[i] : Ev.gotc[i][j]) THEN <<>>
           ELSE <<E(Ev.p, "the finite difference model does not hold the perturbations that were set: " \o ToString(Ev.got) \o ToString(Ev.gotc) \o " for " \o ToString(Ev.want), "")>>)
        ELSE IF Ev.op = "program" THEN
          (IF Ev.ok THEN
             (IF Ev.rc # "0" THEN <<E("P21", "a program that is right ended with " \o Ev.rc, "")>>
              ELSE IF ~Ev.parsed THEN <<E("P21", "the tables of a program do not have the rows and columns they must", "")>>
              ELSE IF Ev.at # Ev.wat \/ Len(Ev.rows) # Len(Ev.want) \/ \E q \in DOMAIN Ev.rows : Ev.rows[q] # Ev.want[q]
                   THEN <<E("P21", "the rows of the tables are not those asked for", "")>> ELSE <<>>)
           ELSE IF Ev.rc \notin {ToString(x) : x \in 1..125} THEN <<E("P21", "a program that is wrong ended with " \o Ev.rc, "")>>
           ELSE IF ~Ev.msg \/ Ev.table THEN <<E("P21", "a program that is wrong is not reported as such", "")>> ELSE <<>>)
        ELSE IF Ev.rc # "ok" THEN <<E("CALL", Ev.op \o " " \o Ev.sv \o " " \o Ev.rc, "")>> ELSE <<>>)
  /\ stat' = [stat EXCEPT !.programs = @ + (IF Ev.op = "program" THEN 1 ELSE 0), !.forms = @ + (IF Ev.op = "form" /\ Ev.have THEN 1 ELSE 0), !.solves = @ + (IF Ev.op \in {"solve", "fd_solve"} THEN 1 ELSE 0),
                          !.failed = @ + (IF Ev.op \in {"solve", "fd_solve"} /\ Ev.rc # "ok" THEN 1 ELSE 0)]
  /\ IF l < Len(Cases[k]) THEN k' = k /\ l' = l + 1 ELSE k' = k + 1 /\ l' = 1
Next == Step \/ (k > Len(Cases) /\ k = Len(Cases) + 1 /\ l = 1 /\ PrintT(ToJson([viol |-> viol, stat |-> stat])) /\ k' = k + 1 /\ UNCHANGED <<l, viol, stat>>)
=============================================================================

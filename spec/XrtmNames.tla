----------------------------- MODULE XrtmNames ------------------------------
(* The translation of names: for each table a sequence of names; the value  *)
(* of the k-th name is the mask {k-1}, or for a table of plain values k-1.  *)
(* Masks are sets of bit numbers.  Queries and what they must answer; the   *)
(* recorded answers are judged in Check.                                    *)
EXTENDS XrtmBase, Json, SequencesExt
CONSTANTS Part
VARIABLES q
MaskTables == [xrtm_option |-> OptionNames, xrtm_solver |-> SolverNames, xrtm_output |-> OutputNames]
ValueTables == [xrtm_kernel |-> KernelNames, xrtm_fd_method |-> <<"forward", "backward", "central">>,
                eigen_solver_gen_real |-> <<"lapack">>, eigen_solver_gen_complex |-> <<"lapack">>]
Tables == DOMAIN MaskTables \cup DOMAIN ValueTables
Names(t) == IF t \in DOMAIN MaskTables THEN MaskTables[t] ELSE ValueTables[t]
N(t) == Len(Names(t))
Err == "err"
Bits(t) == 0..(N(t) - 1)
IdxOf(t, nm) == IF \E k \in 1..N(t) : Names(t)[k] = nm THEN (CHOOSE k \in 1..N(t) : Names(t)[k] = nm) - 1 ELSE -1
Sorted(S) == SetToSortSeq(S, <)

(* what a query must answer *)
Answer(t, f, a) ==
  CASE f = "n" -> N(t)
    [] f = "index_to_name" -> IF a \in Bits(t) THEN Names(t)[a + 1] ELSE Err
    [] f = "name_to_index" -> IF IdxOf(t, a) >= 0 THEN IdxOf(t, a) ELSE Err
    \* masks: arguments and results are sets of bits, written as sorted sequences
    [] f = "index_to_mask" -> IF a \in Bits(t) THEN <<a>> ELSE Err
    [] f = "mask_to_index" -> IF Len(a) = 1 /\ a[1] \in Bits(t) THEN a[1] ELSE Err
    [] f = "name_to_mask"  -> IF IdxOf(t, a) >= 0 THEN <<IdxOf(t, a)>> ELSE Err
    [] f = "mask_to_name"  -> IF Len(a) = 1 /\ a[1] \in Bits(t) THEN Names(t)[a[1] + 1] ELSE Err
    [] f = "mask_to_index_list" -> Sorted(Range(a) \cap Bits(t))
    [] f = "mask_to_value_list" -> [k \in DOMAIN Sorted(Range(a) \cap Bits(t)) |-> <<Sorted(Range(a) \cap Bits(t))[k]>>]
    [] f = "mask_to_name_list"  -> [k \in DOMAIN Sorted(Range(a) \cap Bits(t)) |-> Names(t)[Sorted(Range(a) \cap Bits(t))[k] + 1]]
    [] f = "name_list_to_mask"  -> IF \A k \in DOMAIN a : IdxOf(t, a[k]) >= 0 THEN Sorted({IdxOf(t, a[k]) : k \in DOMAIN a}) ELSE Err
    [] f = "value_list_to_mask" -> Sorted(Range(a))
    [] f = "short_lists" -> 0
    \* plain values
    [] f = "index_to_value" -> IF a \in Bits(t) THEN a ELSE Err
    [] f = "value_to_index" -> IF a \in Bits(t) THEN a ELSE Err
    [] f = "name_to_value"  -> IF IdxOf(t, a) >= 0 THEN IdxOf(t, a) ELSE Err
    [] f = "value_to_name"  -> IF a \in Bits(t) THEN Names(t)[a + 1] ELSE Err

(* Theorems of the table, checked by TLC in every state: names and values
   correspond one to one, and the translations are inverse *)
OneToOne == \A t \in Tables : Cardinality(Range(Names(t))) = N(t)
RoundTrip == \A t \in Tables : \A k \in Bits(t) :
  /\ Answer(t, "name_to_index", Answer(t, "index_to_name", k)) = k
  /\ (t \in DOMAIN MaskTables => /\ Answer(t, "name_to_mask", Answer(t, "mask_to_name", <<k>>)) = <<k>>
                                 /\ Answer(t, "mask_to_index", Answer(t, "index_to_mask", k)) = k)
  /\ (t \in DOMAIN ValueTables => Answer(t, "name_to_value", Answer(t, "value_to_name", k)) = k)

Unknown(t) == {"", "x", "no_such_name", "LAMBERTIAN", "Vector"} \cup
  UNION {{Names(t)[k] \o "_", Names(t)[k] \o "2", "x" \o Names(t)[k]} : k \in 1..N(t)} \cup UNION {Range(Names(u)) : u \in Tables}
NameArgs(t) == Range(Names(t)) \cup Unknown(t)
Idx(t) == (-2)..(N(t) + 2)
Masks1(t) == {<<k>> : k \in Bits(t)}
Outside(t) == IF N(t) < 31 THEN {<<k>> : k \in N(t)..31} ELSE {}
Masks2(t) == {<<>>} \cup {Sorted({j, k}) : j, k \in Bits(t)} \cup {Sorted(Bits(t) \ {k}) : k \in Bits(t)}
R(X) == RandomElement(X)
MasksR(t) == {Sorted({k \in Bits(t) : R(1..4) = 1}) : z \in 1..60}
NotAll(S) == {s \in S : Len(s) < 32}      \* every bit set cannot be told from the error value
MaskArgs(t) == NotAll(Masks1(t) \cup Masks2(t) \cup MasksR(t))
NameLists(t) == {<<>>} \cup {<<Names(t)[k]>> : k \in 1..N(t)} \cup {<<Names(t)[j], Names(t)[k]>> : j, k \in 1..N(t)}
  \cup {[k \in DOMAIN m |-> Names(t)[m[Len(m) + 1 - k] + 1]] : m \in MaskArgs(t)}
  \cup {<<Names(t)[1], "nope">>, <<"nope">>, <<"nope", Names(t)[N(t)]>>}
Q(t, f, S) == {[t |-> t, f |-> f, a |-> s] : s \in S}
Queries ==
  UNION {Q(t, "n", {0}) \cup Q(t, "index_to_name", Idx(t)) \cup Q(t, "name_to_index", NameArgs(t)) : t \in Tables}
  \cup UNION {Q(t, "index_to_mask", Idx(t)) \cup Q(t, "name_to_mask", NameArgs(t)) : t \in DOMAIN MaskTables}
  \cup UNION {UNION {Q(t, f, Masks1(t) \cup Masks2(t) \cup Outside(t)) : f \in {"mask_to_index", "mask_to_name"}} : t \in DOMAIN MaskTables}
  \cup UNION {UNION {Q(t, f, MaskArgs(t)) : f \in {"mask_to_index_list", "mask_to_name_list", "mask_to_value_list", "value_list_to_mask", "short_lists"}} : t \in DOMAIN MaskTables}
  \cup UNION {Q(t, "name_list_to_mask", NameLists(t)) : t \in DOMAIN MaskTables}
  \cup UNION {Q(t, "index_to_value", Idx(t)) \cup Q(t, "value_to_index", Idx(t)) \cup Q(t, "value_to_name", Idx(t)) \cup Q(t, "name_to_value", NameArgs(t)) : t \in DOMAIN ValueTables}

Init == q \in Queries
Next == FALSE /\ UNCHANGED q
Emit == PrintT(ToJson(q)) /\ OneToOne
Theorems == OneToOne /\ RoundTrip
ASSUME Theorems

(* ---- judging: answers.json holds the queries with the observed answer r
   and whether a message was printed ---- *)
Obs == IF Part = "check" THEN JsonDeserialize("trace.json") ELSE <<>>
Silent == {"index_to_name", "index_to_mask", "index_to_value"}   \* an index out of range is refused without a message
J(x) == ToJson(x)         \* values of different kinds are compared as text
Right(o) == /\ J(o.r) = J(Answer(o.t, o.f, o.a))
            /\ (J(o.r) = J(Err) /\ o.f \notin Silent => o.m) /\ (J(o.r) # J(Err) => ~o.m)
InitC == q = 0
NextC == q < Len(Obs) /\ q' = q + 1
Judge == q = 0 \/ Right(Obs[q]) \/ PrintT(ToJson([bad |-> Obs[q], want |-> ToString(Answer(Obs[q].t, Obs[q].f, Obs[q].a))]))
=============================================================================

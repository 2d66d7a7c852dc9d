----------------------------- MODULE StreamTrace ---------------------------
(***************************************************************************)
(* Runs of stream pipelines against StreamSpec (C16, C19).  The run picks  *)
(* one of the possible lists after each stage, then the recorded calls and *)
(* the recorded answer must be those of that choice.                       *)
(***************************************************************************)
EXTENDS StreamSpec, Json, IOUtils

H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES lists,    \* the list after each stage, the source first
          t, l
vars == <<lists, t, l>>
Init == t \in 1..Len(H) /\ l = 1 /\ lists = <<H[t].src>>

G == H[t].stages
E == H[t].h
Of_(e) == SelectSeq(E, LAMBDA x : x.e = e)
Peeks(k, n) == LET s == SelectSeq(SubSeq(E, 1, n), LAMBDA x : x.e = "pk" /\ x.k = k) IN [i \in DOMAIN s |-> s[i].x]
Calls == LET s == Of_("pr") IN [i \in DOMAIN s |-> s[i].x]
K == Len(lists)     \* the next stage

Stage == /\ K <= Len(G) /\ Valid(G[K])
         /\ \E s \in Out(G[K], lists[K]) : lists' = Append(lists, s)
         /\ UNCHANGED <<t, l>>

IsPrefix_(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
RetAt == CHOOSE i \in DOMAIN E : E[i].e = "ret"
EarlyTerm == H[t].term.op \in {"any", "all", "first"}

\* an invalid size: the builder panics, nothing else is asked
Refuse == /\ K <= Len(G) /\ ~Valid(G[K])
          /\ Of_("ret") = <<>> /\ Of_("oops") = <<>>
          /\ Len(Of_("pan")) = 1 /\ Of_("pan")[1].k = K
          /\ \A k \in 1..K-1 : G[k].op = "peek" => IsPrefix_(Peeks(k, Len(E)), lists[k])

Accept == /\ K = Len(G) + 1
          /\ Of_("pan") = <<>> /\ Of_("oops") = <<>> /\ Len(Of_("ret")) = 1
          /\ Answer(H[t].term, lists[K], Of_("ret")[1], Calls)
          /\ \A k \in 1..Len(G) : G[k].op = "peek" =>
                /\ IsPrefix_(Peeks(k, Len(E)), lists[k])
                \* before the stream ends, if what follows reads it to the end
                /\ (~EarlyTerm /\ \A j \in k+1..Len(G) : Exhausts(G[j])) => Peeks(k, RetAt) = lists[k]

Finish == (Refuse \/ Accept) /\ l = 1 /\ l' = 2 /\ PrintT(<<"ACC", t>>) /\ UNCHANGED <<lists, t>>
Next == (l = 1 /\ Stage) \/ Finish
Spec == Init /\ [][Next]_vars
Reach == IF "DIAG" \in DOMAIN IOEnv THEN PrintT(<<"AT", t, 1>>) ELSE TRUE
=============================================================================

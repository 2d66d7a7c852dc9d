------------------------------- MODULE MapGen -------------------------------
(***************************************************************************)
(* Programs for the code, generated from the design MapImpl: for every     *)
(* shape of the map (what is in the read and the dirty map, which entries  *)
(* are deleted or expunged, how many misses) a shortest sequential program *)
(* that leads to it from the empty map. One process; breadth-first search, *)
(* states with the same shape being the same state (VIEW).                 *)
(***************************************************************************)
EXTENDS MapImpl, Json

VARIABLE prog
GInit == /\ g = [readm |-> NilMap, amended |-> FALSE, hasd |-> FALSE, dirty |-> NilMap, misses |-> 0, mu |-> 0,
                 nexte |-> 1, P |-> [e \in 1..MaxE |-> None]]
         /\ cf = {[kv |-> [x \in Keys |-> None], op |-> <<>>]}
         /\ s = [p \in Procs |-> Idle] /\ cbs = {} /\ cbok = TRUE /\ prog = <<>>
GNext == /\ \E p \in Procs : Step(p)
         /\ prog' = IF s'[1].id # s[1].id /\ s'[1].pc # "idle" THEN Append(prog, <<s'[1].m, s'[1].k - 1>>) ELSE prog
GSpec == GInit /\ [][GNext]_<<vars, prog>>

Cell(e) == IF e = 0 THEN "-" ELSE CASE g.P[e] = Gone -> "x" [] g.P[e] = None -> "n" [] OTHER -> "v"
Shape == [r |-> [y \in Keys |-> Cell(g.readm[y])], d |-> [y \in Keys |-> Cell(g.dirty[y])],
          same |-> [y \in Keys |-> g.readm[y] = g.dirty[y]], a |-> g.amended, h |-> g.hasd, m |-> g.misses]
Local == LET b == s[1] IN
  [pc |-> b.pc, m |-> b.m, k |-> b.k, r |-> [y \in Keys |-> Cell(b.rm[y])], e |-> Cell(b.e),
   er |-> b.e # 0 /\ g.readm[b.k] = b.e, ed |-> b.e # 0 /\ g.dirty[b.k] = b.e,
   x |-> IF b.x = None THEN 0 ELSE IF b.x = Gone THEN 1 ELSE 2, todo |-> b.todo, slow |-> b.slow, y |-> b.y]
GView == <<Shape, Local>>
Short == s[1].n < NOps \/ s[1].pc # "idle"
Emit == s[1].pc = "idle" => PrintT(<<"GEN", ToJson([prog |-> prog, shape |-> Shape])>>)
=============================================================================

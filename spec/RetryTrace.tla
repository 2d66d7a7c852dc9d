----------------------------- MODULE RetryTrace ----------------------------
(***************************************************************************)
(* Retry and the error batch (C11). errs: the texts of the errors so far.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES errs,     \* <<number, text>> of each error, in order
          run,      \* the function is running
          won,      \* an attempt succeeded
          n,        \* attempts begun
          t, l
vars == <<errs, run, won, n, t, l>>
Ev == H[t].h[l]
Init == t \in 1..Len(H) /\ l = 1 /\ errs = <<>> /\ run = FALSE /\ won = FALSE /\ n = 0

RECURSIVE Join(_)
Join(s) == IF Len(s) = 0 THEN "" ELSE IF Len(s) = 1 THEN s[1][2] ELSE s[1][2] \o "\n" \o Join(Tail(s))

\* what an error value made of errs looks like
Is(nil, text, same) == /\ nil = (errs = <<>>)
                       /\ ~nil => text = Join(errs)
                       /\ Len(errs) = 1 => same = errs[1][1]

Max == IF H[t].times < 0 THEN 4 ELSE H[t].times + 1

Note == errs' = IF Ev.nil THEN errs ELSE Append(errs, <<Ev.k, Ev.text>>)

Consume ==
  CASE Ev.e = "begin" -> ~run /\ ~won /\ n < Max /\ run' = TRUE /\ n' = n + 1 /\ UNCHANGED <<errs, won>>
    [] Ev.e = "fend" -> run /\ run' = FALSE /\ Note /\ won' = Ev.nil /\ UNCHANGED n
    [] Ev.e = "ret" -> /\ ~run
                       /\ IF won THEN Ev.nil ELSE n = Max /\ Is(Ev.nil, Ev.text, Ev.same)
                       /\ UNCHANGED <<errs, run, won, n>>
    [] Ev.e = "add" -> Note /\ UNCHANGED <<run, won, n>>
    [] Ev.e = "err" -> Is(Ev.nil, Ev.text, Ev.same) /\ Ev.notnil = ~Ev.nil /\ UNCHANGED <<errs, run, won, n>>
    [] Ev.e = "end" -> Ev.st = "done" /\ ~run /\ UNCHANGED <<errs, run, won, n>>
    [] OTHER -> FALSE

Next == /\ l <= Len(H[t].h)
        /\ Consume /\ l' = l + 1 /\ t' = t
        /\ (l' = Len(H[t].h) + 1 => PrintT(<<"ACC", t>>))
Spec == Init /\ [][Next]_vars
Reach == IF "DIAG" \in DOMAIN IOEnv THEN PrintT(<<"AT", t, l>>) ELSE TRUE
=============================================================================

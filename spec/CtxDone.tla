------------------------------ MODULE CtxDone ------------------------------
(* What is known about contexts: a context is live until its cancellation    *)
(* begins, may be done while the cancellation is in progress, and is done    *)
(* afterwards.                                                               *)
EXTENDS Integers, FiniteSets, TLC
VARIABLES begun, done   \* sets of contexts whose cancellation has begun / returned
CtxInit == begun = {} /\ done = {}
CancelBegin(c) == begun' = begun \cup {c} /\ UNCHANGED done
CancelEnd(c) == done' = done \cup {c} /\ UNCHANGED begun
=============================================================================

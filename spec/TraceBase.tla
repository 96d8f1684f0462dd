------------------------------ MODULE TraceBase ------------------------------
(***************************************************************************)
(* Trace validation.  A trace file holds one recorded history per line: a  *)
(* sequence of events [op, i, o] with the call's inputs and everything it  *)
(* let the caller observe.  A trace module supplies                        *)
(*    StepOp(st, e) = [st |-> next abstract state, ok |-> BOOLEAN,         *)
(*                     exp |-> what the specification expects to observe]  *)
(* and every recorded event must be a step the specification takes.        *)
(* A rejected event is printed and the history goes on from the state the  *)
(* specification reaches, so that the rest of the trace is still checked.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES h, l, st

Trace == ndJsonDeserialize(IOEnv.TRACE)

(* an event the specification determines completely *)
Determined(st1, e, exp) == [st |-> st1, ok |-> e.o = exp, exp |-> exp]
(* an event constrained by a predicate *)
Constrained(st1, ok, exp) == [st |-> st1, ok |-> ok, exp |-> exp]

TInit(s0) == h \in 1..Len(Trace) /\ l = 1 /\ st = s0
TNext(StepOp(_, _)) ==
  /\ l <= Len(Trace[h])
  /\ LET e == Trace[h][l]
         r == StepOp(st, e)
     IN /\ IF r.ok THEN TRUE ELSE PrintT("@@M " \o ToString(h) \o " " \o ToString(l) \o " " \o ToJson(r.exp))
        /\ st' = r.st
  /\ l' = l + 1
  /\ h' = h
=============================================================================

------------------------------ MODULE PoolTrace ------------------------------
(* Checks recorded runs of the real page pool against PagePool: calls and    *)
(* returns are taken from the run, the effects in between are searched for.  *)
(* A run is accepted when some placement of the effects explains all of it.  *)
EXTENDS PagePool, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
Starts == {k \in 1..Len(Trace) : Trace[k].e = "start"}

VARIABLES run, i
tvars == <<vars, run, i>>

TInit == \E k \in Starts : /\ run = k /\ i = k + 1
                           /\ Init0(Trace[k].n, [x \in 1..Trace[k].n |-> x], Trace[k].ro)

Event(e) ==
  CASE e.e = "call"  -> Call(e.t, e.r)
    [] e.e = "ret"   -> Ret(e.t)
    [] e.e = "mod"   -> Modify(e.t, e.p, e.v)
    [] e.e = "look"  -> Look(e.t, e.p, e.v)
    [] e.e = "peek"  -> Peek(e.p, e.v)
    [] e.e = "close" -> Close(e.rc, e.fi)
    [] e.e = "end"   -> PrintT(<<"OK", run>>) /\ UNCHANGED vars
    [] OTHER         -> FALSE

TNext == /\ i <= Trace[run].last
         /\ \/ Event(Trace[i]) /\ i' = i + 1
            \/ \E t \in Threads : Effect(t) /\ i' = i
         /\ UNCHANGED run
Spec == TInit /\ [][TNext]_tvars
\* for a rejected run: how far it could be explained
Far == IF IOEnv.TRACE_FAR = "1" THEN PrintT(<<"AT", run, i>>) ELSE TRUE
=============================================================================

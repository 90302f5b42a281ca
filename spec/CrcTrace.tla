------------------------------ MODULE CrcTrace ------------------------------
(* Checks results recorded from the real functions against Crc; same        *)
(* conventions as FileDBTrace.                                              *)
EXTENDS Crc, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES i, bad, nacc, cur

Step(e) ==
  CASE e.op = "reset"  -> Begin
    [] e.op = "begin"  -> Begin
    [] e.op = "more"   -> More(e.b)
    [] e.op = "result" -> Result(e.crcs, e.hashes)
    [] e.op = "order"  -> Order(e.a, e.b, e.xs)
    [] e.op = "log2"   -> Log2(e.n, e.r)
    [] e.op = "net"    -> Net(e.v, e.m, e.back)
    [] OTHER           -> FALSE

TNext ==
  /\ i <= Len(Trace)
  /\ LET e == Trace[i] IN
       /\ cur' = IF e.op = "reset" THEN i ELSE cur
       /\ IF ENABLED Step(e)
          THEN Step(e) /\ i' = i + 1 /\ bad' = bad /\ nacc' = nacc + 1
          ELSE /\ PrintT(<<"REJECT", i, e>>)
               /\ UNCHANGED vars
               /\ i' = Trace[cur].skip
               /\ bad' = bad + 1 /\ nacc' = nacc
Spec == Init /\ i = 1 /\ bad = 0 /\ nacc = 0 /\ cur = 1 /\ [][TNext]_<<vars, i, bad, nacc, cur>>
TView == i
Done == i > Len(Trace) => PrintT(<<"DONE", nacc, bad>>)
=============================================================================

------------------------------ MODULE PoolAlgo ------------------------------
(***************************************************************************)
(* The algorithm of the page cache: a table of buffers in LRU order, each   *)
(* with pin, count, owner, dirty mark and a queue of waiting threads, all   *)
(* under one lock.  A request is one critical section, except that a        *)
(* fetch of a page in use waits until it is woken.  TLC checks that this    *)
(* algorithm gives what PagePool promises; its behaviours are replayed      *)
(* into the real code with the same interleaving.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NT, NP, Cap, MaxOps, Group, Spurious

Threads == 1..NT
Pages == 0..(NP - 1)
NoBuf == [in |-> FALSE, pin |-> FALSE, ref |-> 0, own |-> 0, q |-> <<>>, c |-> 0, d |-> FALSE]

VARIABLES bk, lru, woken, wt, dsk, rel, nops, nv
vars == <<bk, lru, woken, wt, dsk, rel, nops, nv>>

Held(t) == {p \in Pages : bk[p].in /\ bk[p].pin /\ bk[p].own = t}
Running(t) == wt[t] = -1
\* callers take several pages in order of their numbers only
MayAsk(t, p) == \A x \in Held(t) : x <= p
Without(s, p) == SelectSeq(s, LAMBDA x : x # p)

Init == /\ bk = [p \in Pages |-> NoBuf] /\ lru = <<>> /\ woken = {} /\ wt = [t \in Threads |-> -1]
        /\ dsk = [p \in Pages |-> p + 1] /\ rel = [p \in Pages |-> p + 1] /\ nops = 0 /\ nv = NP + 1

Ops(o) == o \in Group /\ nops < MaxOps /\ nops' = nops + 1

\* the dirty pages a flush of at most n pages (0: all) writes, in LRU order
RECURSIVE FlushFrom(_, _, _)
FlushFrom(l, b, n) ==
  IF l = <<>> THEN {}
  ELSE LET p == Head(l) IN
       IF ~b[p].pin /\ b[p].q = <<>> /\ b[p].d
       THEN {p} \cup (IF n = 1 THEN {} ELSE FlushFrom(Tail(l), b, IF n = 0 THEN 0 ELSE n - 1))
       ELSE FlushFrom(Tail(l), b, n)
Written(s, b, d) == [p \in Pages |-> IF p \in s THEN b[p].c ELSE d[p]]
Cleaned(s, b) == [p \in Pages |-> IF p \in s THEN [b[p] EXCEPT !.d = FALSE] ELSE b[p]]

\* a buffer for page p: a fresh one, or that of the least recently used page nobody has or wants
Evictable(x) == ~bk[x].pin /\ bk[x].q = <<>>
Load(t, p, d) ==
  LET some == Len(lru) > Cap /\ \E i \in 1..Len(lru) : Evictable(lru[i])
      vi == CHOOSE i \in 1..Len(lru) : Evictable(lru[i]) /\ \A j \in 1..(i - 1) : ~Evictable(lru[j])
      v == lru[vi]
      w == IF some /\ bk[v].d THEN {v} ELSE {}
      l1 == IF some THEN Without(lru, v) ELSE lru
      b1 == IF some THEN [bk EXCEPT ![v] = NoBuf] ELSE bk
      more == IF w # {} THEN FlushFrom(l1, b1, Cap \div 5) ELSE {}
      d1 == [x \in Pages |-> IF x \in w THEN bk[x].c ELSE IF x \in more THEN bk[x].c ELSE dsk[x]]
  IN /\ bk' = [Cleaned(more, b1) EXCEPT ![p] = [in |-> TRUE, pin |-> TRUE, ref |-> 1, own |-> t, q |-> <<>>, c |-> d1[p], d |-> d]]
     /\ dsk' = d1
     /\ lru' = Append(l1, p)

Get(t, p, d) ==
  /\ Running(t) /\ MayAsk(t, p) /\ Ops("get")
  /\ IF ~bk[p].in
     THEN Load(t, p, d) /\ UNCHANGED <<woken, wt, rel, nv>>
     ELSE IF bk[p].own = t
     THEN /\ bk' = [bk EXCEPT ![p].ref = @ + 1, ![p].d = @ \/ d]
          /\ lru' = Append(Without(lru, p), p)
          /\ UNCHANGED <<woken, wt, dsk, rel, nv>>
     ELSE IF bk[p].pin \/ bk[p].q # <<>>
     THEN /\ bk' = [bk EXCEPT ![p].q = Append(@, <<t, d>>)]
          /\ wt' = [wt EXCEPT ![t] = p]
          /\ UNCHANGED <<lru, woken, dsk, rel, nv>>
     ELSE /\ bk' = [bk EXCEPT ![p].pin = TRUE, ![p].ref = 1, ![p].own = t, ![p].d = @ \/ d]
          /\ lru' = Append(Without(lru, p), p)
          /\ UNCHANGED <<woken, wt, dsk, rel, nv>>
\* a thread that was woken goes on
Wake(t) ==
  LET p == wt[t] IN
  /\ t \in woken
  /\ Assert(bk[p].q # <<>> /\ Head(bk[p].q)[1] = t, "woken out of turn")
  /\ bk' = [bk EXCEPT ![p].q = Tail(@), ![p].pin = TRUE, ![p].ref = @ + 1, ![p].own = t, ![p].d = @ \/ Head(bk[p].q)[2]]
  /\ lru' = Append(Without(lru, p), p)
  /\ woken' = woken \ {t} /\ wt' = [wt EXCEPT ![t] = -1]
  /\ UNCHANGED <<dsk, rel, nops, nv>>
\* waking without having been woken changes nothing
WakeSpurious(t) == Spurious /\ wt[t] # -1 /\ t \notin woken /\ UNCHANGED vars

\* the holder writes into the page (it has declared, or declares on release, that it does)
Modify(t, p) == /\ "mod" \in Group /\ p \in Held(t) /\ Running(t) /\ bk[p].d /\ nops < MaxOps /\ nops' = nops + 1
                /\ bk' = [bk EXCEPT ![p].c = nv] /\ nv' = nv + 1
                /\ UNCHANGED <<lru, woken, wt, dsk, rel>>

Put(t, p) ==
  /\ Running(t) /\ p \in Held(t)
  /\ IF bk[p].ref > 1
     THEN bk' = [bk EXCEPT ![p].ref = @ - 1] /\ UNCHANGED <<woken, rel>>
     ELSE /\ bk' = [bk EXCEPT ![p].ref = 0, ![p].pin = FALSE, ![p].own = 0]
          /\ woken' = IF bk[p].q # <<>> THEN woken \cup {Head(bk[p].q)[1]} ELSE woken
          /\ rel' = [rel EXCEPT ![p] = IF bk[p].d THEN bk[p].c ELSE @]
  /\ UNCHANGED <<lru, wt, dsk, nops, nv>>

Delete(t, p) ==
  /\ Running(t) /\ p \in Held(t) /\ Ops("del")
  /\ IF bk[p].ref = 1 /\ bk[p].q = <<>>
     THEN /\ dsk' = [dsk EXCEPT ![p] = IF bk[p].d THEN bk[p].c ELSE @]
          /\ rel' = [rel EXCEPT ![p] = IF bk[p].d THEN bk[p].c ELSE @]
          /\ bk' = [bk EXCEPT ![p] = NoBuf] /\ lru' = Without(lru, p)
     ELSE UNCHANGED <<dsk, rel, bk, lru>>
  /\ UNCHANGED <<woken, wt, nv>>

Sync(t) ==
  /\ Running(t) /\ Ops("sync")
  /\ LET s == FlushFrom(lru, bk, 0) IN dsk' = Written(s, bk, dsk) /\ bk' = Cleaned(s, bk)
  /\ UNCHANGED <<lru, woken, wt, rel, nv>>

Step(t) == \/ \E p \in Pages : (\E d \in BOOLEAN : Get(t, p, d)) \/ Modify(t, p) \/ Put(t, p) \/ Delete(t, p)
           \/ Wake(t) \/ WakeSpurious(t) \/ Sync(t)
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars
Fair == \A t \in Threads : WF_vars(Wake(t)) /\ WF_vars(\E p \in Pages : Put(t, p))
FairSpec == Spec /\ Fair

(***************************************************************************)
(* What it gives.                                                          *)
(***************************************************************************)
\* a page nobody holds shows what was last released as modified, cached or not
FetchRight == \A p \in Pages : IF ~bk[p].in THEN dsk[p] = rel[p] ELSE ~bk[p].pin => bk[p].c = rel[p]
\* the marks agree
Marks == \A p \in Pages : bk[p].in => /\ bk[p].pin <=> bk[p].ref > 0
                                      /\ bk[p].pin <=> bk[p].own # 0
                                      /\ (~bk[p].pin /\ ~bk[p].d) => dsk[p] = bk[p].c
\* a page in use, or wanted, stays
Stays == \A t \in Threads : wt[t] # -1 => bk[wt[t]].in /\ \E i \in 1..Len(bk[wt[t]].q) : bk[wt[t]].q[i][1] = t
\* no wakeup is lost, and only the first is woken
Woken == /\ \A p \in Pages : bk[p].q # <<>> => bk[p].pin \/ Head(bk[p].q)[1] \in woken
         /\ \A t \in woken : wt[t] # -1 /\ ~bk[wt[t]].pin /\ Head(bk[wt[t]].q)[1] = t
\* one buffer per page, and no more of them than needed
Lru == /\ \A p \in Pages : bk[p].in <=> \E i \in 1..Len(lru) : lru[i] = p
       /\ Cardinality({p \in Pages : bk[p].in}) = Len(lru)
GrowsIfNeeded == [][Len(lru') > Len(lru) => Len(lru) <= Cap \/ \A i \in 1..Len(lru) : ~Evictable(lru[i])]_vars
\* the file never shows what has not been released
OnlyReleased == [][\A p \in Pages : dsk'[p] # dsk[p] => dsk'[p] = rel'[p]]_vars
Served == \A t \in Threads : (wt[t] # -1) ~> (wt[t] = -1)
=============================================================================

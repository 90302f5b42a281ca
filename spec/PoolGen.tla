------------------------------- MODULE PoolGen -------------------------------
(* Prints behaviours of PoolAlgo (TLC -simulate): who does what, in order.    *)
(* They are replayed into the real page pool with the same interleaving.      *)
EXTENDS PoolAlgo, Json, IOUtils

Profile == JsonDeserialize(IOEnv.GEN_PROFILE)
VARIABLES hist, fin
gvars == <<vars, hist, fin>>

GInit == Init /\ hist = <<>> /\ fin = FALSE
Log(o, t, p, d) == hist' = Append(hist, [o |-> o, t |-> t, p |-> p, d |-> d])

\* few threads are idle when pages are contended: half of the pages asked for are in use
Asked(t) ==
  LET busy == {p \in Pages : bk[p].in /\ bk[p].pin /\ bk[p].own # t /\ MayAsk(t, p)}
      all == {p \in Pages : MayAsk(t, p)}
  IN IF busy # {} /\ RandomElement(1..2) = 1 THEN {RandomElement(busy)}
     ELSE IF all # {} THEN {RandomElement(all)} ELSE {}
GStep(t) ==
  \/ \E p \in Asked(t) : \E d \in {RandomElement(BOOLEAN)} : Get(t, p, d) /\ Log("g", t, p, d)
  \/ \E p \in Pages : Modify(t, p) /\ Log("w", t, p, TRUE)
  \/ \E p \in Pages : Put(t, p) /\ Log("p", t, p, FALSE)
  \/ RandomElement(1..3) = 1 /\ \E p \in Pages : Delete(t, p) /\ Log("x", t, p, FALSE)
  \/ RandomElement(1..3) = 1 /\ Sync(t) /\ Log("s", t, 0, FALSE)
  \/ Wake(t) /\ Log("k", t, 0, FALSE)
GNext == /\ ~fin
         /\ IF nops >= MaxOps \/ Len(hist) >= Profile.depth
            THEN PrintT("BEH " \o ToJson([ops |-> hist])) /\ fin' = TRUE /\ UNCHANGED <<vars, hist>>
            ELSE /\ \E t \in Threads : GStep(t)
                 /\ fin' = FALSE
GSpec == GInit /\ [][GNext]_gvars
GInv == FetchRight /\ Marks /\ Stays /\ Woken /\ Lru
=============================================================================

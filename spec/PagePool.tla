------------------------------ MODULE PagePool ------------------------------
(***************************************************************************)
(* The page cache as its callers see it: threads fetch, create, modify,     *)
(* release, delete and renumber pages of one file, and flush.  Every        *)
(* request is a call, one atomic effect some time later, and a return.      *)
(*                                                                         *)
(* The content of a page is a value: 0 for all zero bytes, a positive       *)
(* number for the bytes a holder once wrote, New for a page just created    *)
(* (its first bytes are zero, the rest is arbitrary).  Anything else the    *)
(* real code might show (a mixture) is -2 and never allowed.                *)
(*                                                                         *)
(* A request carries what it is going to return (rc, and v or p): an        *)
(* effect takes place only if these are results it may have.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Threads, Pages

New == -1
None == 0                      \* no holder

VARIABLES
  val,      \* page -> what a fetch may show
  own,      \* page -> holder
  ref,      \* page -> how often its holder has it
  work,     \* page -> bytes in memory while held
  dt,       \* page -> modified and not known to be in the file
  disk,     \* page -> what the file may show
  pend,     \* thread -> request under way
  npg,      \* pages the file had at first: creation applies to later ones
  ro        \* the file is read only

vars == <<val, own, ref, work, dt, disk, pend, npg, ro>>
content == <<val, own, ref, work, dt, disk, npg, ro>>

NoReq == [op |-> "-", p |-> -1, done |-> TRUE]
\* somebody other than t has asked for page p and does not have it yet
Wanted(p, t) == \E u \in Threads \ {t} : pend[u].op = "get" /\ pend[u].p = p /\ ~pend[u].done

\* a pool on a file of n pages, page p showing the value init[p + 1]
Started(n, init, readonly) ==
  [val |-> [p \in Pages |-> IF p < n THEN {init[p + 1]} ELSE {0}], npg |-> n, ro |-> readonly]
Init0(n, init, readonly) ==
  LET s == Started(n, init, readonly) IN
  /\ val = s.val /\ disk = s.val /\ npg = n /\ ro = readonly
  /\ own = [p \in Pages |-> None] /\ ref = [p \in Pages |-> 0] /\ work = [p \in Pages |-> 0]
  /\ dt = [p \in Pages |-> FALSE] /\ pend = [t \in Threads |-> NoReq]

(***************************************************************************)
(* Calls and returns.                                                      *)
(***************************************************************************)
Call(t, r) == /\ pend[t].op = "-" /\ pend' = [pend EXCEPT ![t] = r] /\ UNCHANGED content
Ret(t) == /\ pend[t].op # "-" /\ pend[t].done /\ pend' = [pend EXCEPT ![t] = NoReq] /\ UNCHANGED content
Done(t) == pend' = [pend EXCEPT ![t].done = TRUE]

(***************************************************************************)
(* Effects.                                                                *)
(***************************************************************************)
\* v may be what is meant by w
Is(v, w) == v = w \/ (w = New /\ v = 0)
\* what a fetch may show of a page nobody holds
Shows(p, create, v) == \/ \E w \in val[p] : Is(v, w)
                       \/ create /\ ~dt[p] /\ 0 \in val[p] /\ p >= npg /\ v = New

Get(t, r) ==
  LET p == r.p IN
  IF r.rc # 0
  THEN \* refused, or a system call failed: nothing changes
       /\ (r.dirty /\ ro) \/ (r.fi > 0 /\ own[p] # t)
       /\ UNCHANGED content
  ELSE /\ ~(r.dirty /\ ro)
       /\ IF own[p] = t
          THEN /\ Is(r.v, work[p])                                  \* it has it already
               /\ ref' = [ref EXCEPT ![p] = @ + 1]
               /\ UNCHANGED <<val, own, work>>
          ELSE /\ own[p] = None                                     \* nobody else has it
               /\ Shows(p, r.create, r.v)
               /\ own' = [own EXCEPT ![p] = t] /\ ref' = [ref EXCEPT ![p] = 1]
               /\ work' = [work EXCEPT ![p] = r.v] /\ val' = [val EXCEPT ![p] = {r.v}]
       /\ dt' = [dt EXCEPT ![p] = @ \/ r.dirty]
       /\ UNCHANGED <<disk, npg, ro>>

\* a new page gets a number that is not in use
NewPage(t, r) ==
  LET p == r.p IN
  /\ r.rc = 0 /\ p \in Pages /\ p >= npg
  /\ own[p] = None /\ ~dt[p] /\ \A v \in val[p] \cup disk[p] : v \in {0, New}
  /\ Is(r.v, New)
  /\ own' = [own EXCEPT ![p] = t] /\ ref' = [ref EXCEPT ![p] = 1] /\ work' = [work EXCEPT ![p] = r.v]
  /\ val' = [val EXCEPT ![p] = {r.v}] /\ dt' = [dt EXCEPT ![p] = r.dirty]
  /\ UNCHANGED <<disk, npg, ro>>

\* p is given up; what was modified may reach the file from now on
Released(p, d) ==
  /\ own' = [own EXCEPT ![p] = None] /\ ref' = [ref EXCEPT ![p] = 0]
  /\ val' = [val EXCEPT ![p] = IF d THEN {work[p]} ELSE @]
  /\ dt' = [dt EXCEPT ![p] = d]
  /\ disk' = [disk EXCEPT ![p] = IF d THEN @ \cup {work[p]} ELSE @]
Put(t, r) ==
  LET p == r.p IN
  /\ r.rc = 0 /\ own[p] = t
  /\ IF ref[p] > 1
     THEN /\ ref' = [ref EXCEPT ![p] = @ - 1] /\ dt' = [dt EXCEPT ![p] = @ \/ r.dirty]
          /\ UNCHANGED <<val, own, disk>>
     ELSE Released(p, dt[p] \/ r.dirty)
  /\ UNCHANGED <<work, npg, ro>>

\* discarding: only by the one holder, turned down if somebody waits for the page
Delete(t, r) ==
  LET p == r.p IN
  /\ own[p] = t
  /\ IF r.rc = 0
     THEN /\ ref[p] = 1
          /\ own' = [own EXCEPT ![p] = None] /\ ref' = [ref EXCEPT ![p] = 0]
          /\ val' = [val EXCEPT ![p] = IF dt[p] THEN {work[p]} ELSE @]
          /\ disk' = [disk EXCEPT ![p] = IF dt[p] THEN {work[p]} ELSE @]
          /\ dt' = [dt EXCEPT ![p] = FALSE]
     ELSE /\ ref[p] > 1 \/ Wanted(p, t) \/ r.fi > 0
          /\ UNCHANGED <<own, ref, val, disk, dt>>
  /\ UNCHANGED <<work, npg, ro>>

\* renumbering to a number not in use; if somebody waits it is merely released
Change(t, r) ==
  LET p == r.p
      q == r.q
  IN
  /\ own[p] = t /\ ref[p] = 1 /\ own[q] = None /\ ~dt[q]
  /\ IF r.rc = 0
     THEN /\ own' = [own EXCEPT ![p] = None] /\ ref' = [ref EXCEPT ![p] = 0]
          /\ val' = [val EXCEPT ![p] = IF r.fi > 0 THEN disk[p] \cup {0} ELSE {0}, ![q] = {work[p]}]
          /\ disk' = [disk EXCEPT ![p] = IF r.fi > 0 THEN @ \cup {0} ELSE {0}, ![q] = @ \cup {work[p]}]
          /\ dt' = [dt EXCEPT ![p] = FALSE, ![q] = TRUE]
     ELSE /\ Wanted(p, t)
          /\ Released(p, dt[p])
  /\ UNCHANGED <<work, npg, ro>>

\* flushing: the file shows every page nobody holds or waits for
Sync(t, r) ==
  LET s == {p \in Pages : dt[p] /\ own[p] = None /\ ~Wanted(p, t)} IN
  /\ IF r.rc = 0
     THEN /\ r.fi = 0
          /\ disk' = [p \in Pages |-> IF p \in s THEN val[p] ELSE disk[p]]
          /\ dt' = [p \in Pages |-> dt[p] /\ p \notin s]
     ELSE r.fi > 0 /\ UNCHANGED <<disk, dt>>
  /\ UNCHANGED <<val, own, ref, work, npg, ro>>

Effect(t) ==
  LET r == pend[t] IN
  /\ r.op # "-" /\ ~r.done
  /\ Done(t)
  /\ CASE r.op = "get"  -> Get(t, r)
       [] r.op = "new"  -> NewPage(t, r)
       [] r.op = "put"  -> Put(t, r)
       [] r.op = "del"  -> Delete(t, r)
       [] r.op = "chg"  -> Change(t, r)
       [] r.op = "sync" -> Sync(t, r)

(***************************************************************************)
(* While holding, and the file.                                            *)
(***************************************************************************)
Modify(t, p, v) == /\ own[p] = t /\ v > 0 /\ work' = [work EXCEPT ![p] = v]
                   /\ UNCHANGED <<val, own, ref, dt, disk, pend, npg, ro>>
Look(t, p, v) == own[p] = t /\ Is(v, work[p]) /\ UNCHANGED vars
\* the file at any time: never bytes that have not been released
Peek(p, v) == (\E w \in disk[p] : Is(v, w)) /\ UNCHANGED vars
\* the pool is closed: nothing is held, everything released as modified is in the file
Close(rc, fi) ==
  /\ rc = 0 /\ (\A t \in Threads : pend[t].op = "-") /\ \A p \in Pages : own[p] = None
  /\ disk' = [p \in Pages |-> IF dt[p] /\ fi = 0 THEN val[p] ELSE disk[p]]
  /\ dt' = [p \in Pages |-> FALSE]
  /\ UNCHANGED <<val, own, ref, work, pend, npg, ro>>
=============================================================================

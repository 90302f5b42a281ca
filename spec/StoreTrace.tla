----------------------------- MODULE StoreTrace -----------------------------
(* Checks traces recorded from the real C++ layer against Store; same       *)
(* conventions as FileDBTrace.                                              *)
EXTENDS Store, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES i, bad, nacc, cur

Reset(e) ==
  /\ senv' = [kl |-> e.kl, vl |-> e.vl, kd |-> e.kd, vd |-> e.vd, fds |-> -1, live |-> -1]
  /\ fil' = [f \in 1..NF |-> NoFile]
  /\ dbo' = [d \in 1..ND |-> NoDb]
  /\ sl' = [s \in 1..NS |-> NoStore]

Step(e) ==
  CASE e.op = "reset"  -> Reset(e)
    [] e.op = "new"    -> New(e.s, e.d, e.kind, e.cod, e.opt, e.cfgs)
    [] e.op = "copy"   -> Copy(e.s, e.t)
    [] e.op = "del"    -> Destroy(e.s)
    [] e.op = "open"   -> Open(e.s, e.f, e.mode, e.rc)
    [] e.op = "union"  -> OpenUnion(e.s, e.kind, e.cod, e.fs, e.rc)
    [] e.op = "close"  -> Close(e.s, e.rc)
    [] e.op = "flush"  -> Flush(e.s)
    [] e.op = "name"   -> Name(e.s, e.f)
    [] e.op = "ins"    -> Insert(e.s, e.k, e.v, e.rc)
    [] e.op = "eins"   -> EnsInsert(e.s, e.k, e.vs, e.rc)
    [] e.op = "upd"    -> EnsUpdate(e.s, e.k, e.v, e.ix, e.rc)
    [] e.op = "done"   -> UpdateDone(e.s)
    [] e.op = "get"    -> Get(e.s, e.how, e.k, e.rc, e.vs)
    [] e.op = "exist"  -> Exist(e.s, e.k, e.yes)
    [] e.op = "keys"   -> Keys(e.s, e.how, e.thrown, e.ks)
    [] e.op = "pairs"  -> Pairs(e.s, e.how, e.thrown, e.ks, e.vss)
    [] e.op = "some"   -> Some(e.s, e.thrown, e.ks, e.vss)
    [] e.op = "eq"     -> Equal(e.a, e.b, e.eq, e.ne)
    [] e.op = "there"  -> FilesThere(e.fs, e.yes)
    [] e.op = "size"   -> Size(e.s, e.n)
    [] e.op = "uset"   -> UserSet(e.s, e.v, e.rc)
    [] e.op = "uget"   -> UserGet(e.s, e.rc, e.v)
    [] e.op = "caps"   -> Caps(e.s, e.um, e.nc)
    [] e.op = "cset"   -> CfgSet(e.s, e.ix, e.cf, e.nm, e.ins, e.tag, e.rc)
    [] e.op = "cget"   -> CfgGet(e.s, e.cf, e.rc, e.ix, e.c)
    [] e.op = "call"   -> CfgAll(e.s, e.rc, e.cs)
    [] e.op = "merge"  -> Merge(e.s, e.ents) /\ (IF e.peak = 0 THEN TRUE ELSE MergeWithin(e.s, e.ents, e.budget, e.peak))
    [] e.op = "mem"    -> Memory(e.bytes)
    [] e.op = "kill"   -> EndProcess
    [] e.op = "died"   -> EndsItself(e.why, e.inop, e.s, e.n, e.ents)
    [] e.op = "digest" -> Digest(e.f, e.d)
    [] e.op = "res"    -> Resources(e.fds, e.live)
    [] OTHER           -> FALSE

TNext ==
  /\ i <= Len(Trace)
  /\ LET e == Trace[i] IN
       /\ cur' = IF e.op = "reset" THEN i ELSE cur
       /\ IF ENABLED Step(e)
          THEN Step(e) /\ i' = i + 1 /\ bad' = bad /\ nacc' = nacc + 1
          ELSE /\ PrintT(<<"REJECT", i, e>>)
               /\ UNCHANGED vars
               /\ i' = Trace[cur].skip
               /\ bad' = bad + 1 /\ nacc' = nacc

Spec == Init /\ i = 1 /\ bad = 0 /\ nacc = 0 /\ cur = 1 /\ [][TNext]_<<vars, i, bad, nacc, cur>>
TView == i
Done == i > Len(Trace) => PrintT(<<"DONE", nacc, bad>>)
=============================================================================

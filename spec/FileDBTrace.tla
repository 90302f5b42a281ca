---------------------------- MODULE FileDBTrace ----------------------------
(***************************************************************************)
(* Checks traces recorded from the real library against FileDB.            *)
(* The trace file is one JSON object per event; a "reset" event starts a   *)
(* new independent trace and says at which position the following one      *)
(* begins.  An event the specification does not allow is reported with     *)
(* PrintT(<<"REJECT", ...>>) and the rest of that trace is skipped.        *)
(***************************************************************************)
EXTENDS FileDB, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES i, bad, nacc

tvars == <<env, file, hd, cr, i, bad, nacc>>

TInit == Init /\ i = 1 /\ bad = 0 /\ nacc = 0

Reset(e) ==
  /\ env' = [kl |-> e.kl, vl |-> e.vl, fds |-> -1, live |-> -1]
  /\ file' = [f \in 1..NF |-> NoFile]
  /\ hd' = [h \in 1..NH |-> NoHandle]
  /\ cr' = [c \in 1..NC |-> NoCursor]

\* does the operation that was running when the process ended involve a file
\* that is corrupted or no database?
TouchesBad(e) == \/ e.inop = "open" /\ file[e.inf].st = "other"
                 \/ e.inop = "open" /\ file[e.inf].st = "corrupt" /\ ~(e.mode = "r" /\ file[e.inf].dmg.part = "page")
                 \/ e.inop # "open" /\ e.inh > 0 /\ hd[e.inh].cor /\ ~(e.inop = "get" /\ Unharmed(e.inh, e.k))
Lost(e) == \/ e.inop = "open" /\ file[e.inf].st = "lost"
           \/ e.inop # "open" /\ e.inh > 0 /\ hd[e.inh].st = "broken"

\* operations through a handle about which nothing is specified any more
HandleOps == {"put", "putn", "getall", "scan", "get", "del", "copen", "copenbad", "sync", "uset", "uget", "umax",
              "ncfg", "csetall", "cgetall", "cset1", "cget1"}

Step(e) ==
  CASE e.op = "reset"   -> Reset(e)
    [] e.op \in HandleOps /\ hd[e.h].st = "broken" -> UNCHANGED vars
    [] e.op = "open"    -> Open(e.h, e.f, e.mode, e.p, e.rc, e.fi)
    [] e.op = "put"     -> Put(e.h, e.k, e.v, e.flag, e.rc, e.fi) /\ e.intact = 1
    [] e.op = "putn"    -> PutMany(e.h, e.vs, e.flag)
    [] e.op = "getall"  -> GetAll(e.h, e.vs, {e.ali[j] : j \in 1..Len(e.ali)}, e.fi)
    [] e.op = "scan"    -> Scan(e.h, e.wd = 1, e.ks, e.vs, e.rcs, e.fi)
    [] e.op = "res"     -> Resources(e.fds, e.live)
    [] e.op = "mem"     -> Memory(e.bytes)
    [] e.op = "get"     -> Get(e.h, e.k, e.buf, e.rc, e.v, e.n, e.fi)
    [] e.op = "del"     -> Del(e.h, e.k, e.rc)
    [] e.op = "copen"   -> CurOpen(e.h, e.c, e.rc)
    [] e.op = "copenbad" -> CurOpenBad(e.h, e.rc)
    [] e.op = "cget"    -> IF cr[e.c].st = "closed" THEN UNCHANGED vars
                           ELSE IF hd[cr[e.c].h].st = "broken" THEN UNCHANGED vars
                           ELSE IF e.d = "X" THEN CurBad(e.c, e.rc)
                           ELSE IF CurUnspec(e.c, e.d) THEN CurAny(e.c, e.d)
                           ELSE CurGet(e.c, e.d, e.wd = 1, e.kbuf, e.dbuf, e.rc, e.k, e.v, e.fi)
    [] e.op = "cclose"  -> IF cr[e.c].st = "closed" THEN UNCHANGED vars ELSE CurClose(e.c, e.rc)
    [] e.op = "sync"    -> Sync(e.h, e.rc, e.fi)
    [] e.op = "close"   -> IF hd[e.h].st = "broken" THEN BrokenClose(e.h) ELSE Close(e.h, e.rc, e.fi)
    [] e.op = "uset"    -> UserSet(e.h, e.v, e.rc, e.fi)
    [] e.op = "uget"    -> UserGet(e.h, e.buf, e.rc, e.v, e.n, e.fi)
    [] e.op = "umax"    -> UserMax(e.h, e.n)
    [] e.op = "ncfg"    -> NumConfigs(e.h, e.n)
    [] e.op = "csetall" -> CfgSetAll(e.h, e.s, e.rc, e.fi)
    [] e.op = "cgetall" -> CfgGetAll(e.h, e.rc, e.n, e.s, e.fi)
    [] e.op = "cset1"   -> CfgSetOne(e.h, e.ix, e.cf, e.tag, e.rc, e.fi)
    [] e.op = "cget1"   -> CfgGetOne(e.h, e.cf, e.rc, e.ix, e.tag, e.fi)
    [] e.op = "kill"    -> Kill
    [] e.op = "died"    -> Died(e.why, e.fi, TouchesBad(e), IF e.inop = "open" /\ e.mode # "r" THEN e.inf ELSE 0, Lost(e))
    [] e.op = "copy"    -> CopyFile(e.f, e.g)
    [] e.op = "convert" -> ConvertFile(e.f, e.g, e.ver, e.ord)
    [] e.op = "corrupt" -> Corrupt(e.f, e.g, [safe |-> {e.safe[j] : j \in 1..Len(e.safe)}, must |-> {e.must[j] : j \in 1..Len(e.must)}, part |-> e.part])
    [] e.op = "clobber" -> Clobber(e.f)
    [] e.op = "remove"  -> RemoveFile(e.f)
    [] e.op = "image"   -> Image(e.f, e.g, e.spread = 1)
    [] e.op = "badimage" -> ~(file[e.f].st = "db" /\ file[e.f].known) /\ UNCHANGED vars
    [] e.op = "digest"  -> Digest(e.f, e.d)
    [] OTHER            -> FALSE

NextReset(n) == Trace[n].skip

\* position of the reset event that starts the trace containing position n
VARIABLE cur

TNext ==
  /\ i <= Len(Trace)
  /\ LET e == Trace[i] IN
       /\ cur' = IF e.op = "reset" THEN i ELSE cur
       /\ IF ENABLED Step(e)
          THEN /\ Step(e)
               /\ i' = i + 1
               /\ bad' = bad /\ nacc' = nacc + 1
          ELSE /\ PrintT(<<"REJECT", i, e>>)
               /\ UNCHANGED vars
               /\ i' = NextReset(cur)
               /\ bad' = bad + 1 /\ nacc' = nacc

Init2 == TInit /\ cur = 1
Spec == Init2 /\ [][TNext]_<<tvars, cur>>

View == i
Done == i > Len(Trace) => PrintT(<<"DONE", nacc, bad>>)
=============================================================================

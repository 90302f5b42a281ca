----------------------------- MODULE FileDBGen -----------------------------
(***************************************************************************)
(* Generates behaviours of FileDB (TLC -simulate).  The lengths of keys    *)
(* and values, the creation and opening options and the mix of operations  *)
(* come from a profile; TLC chooses the operations and their arguments     *)
(* among the enabled actions of the specification.  Every behaviour is     *)
(* printed as a JSON list of operations, which the harness replays into    *)
(* the real library; the results are then checked by FileDBTrace.          *)
(***************************************************************************)
EXTENDS FileDB, Json, IOUtils

Profile == JsonDeserialize(IOEnv.GEN_PROFILE)
Depth == Profile.depth
Ops == Profile.ops                 \* sequence with repetitions = weights

VARIABLES hist, fin

gvars == <<env, file, hd, cr, hist, fin>>

GInit == /\ env = [kl |-> Profile.kl, vl |-> Profile.vl, fds |-> -1, live |-> -1]
         /\ file = [f \in 1..NF |-> NoFile]
         /\ hd = [h \in 1..NH |-> NoHandle]
         /\ cr = [c \in 1..NC |-> NoCursor]
         /\ hist = <<>> /\ fin = FALSE

Pick(s) == s[RandomElement(1..Len(s))]
Log(r) == hist' = Append(hist, r)

\* a handle that is open, a key, a value, ...
OpenHandles == {h \in 1..NH : IsOpen(h)}
RH == RandomElement(OpenHandles)
RW == RandomElement({h \in OpenHandles : hd[h].w})
HaveOpen == OpenHandles # {}
HaveWriter == \E h \in OpenHandles : hd[h].w
RK == RandomElement(KeyIds)
RV == RandomElement(1..Len(env.vl))

OpenOp ==
  \E h \in 1..NH : \E f \in 1..NF :
    \E mode \in {Pick(Profile.modes)} : \E cand \in {Pick(Profile.opts)} : \E x \in {RandomElement(1..10)} :
    \E p \in {IF Creates(f, mode) \/ file[f].st # "db" \/ x = 1 THEN cand.p
              ELSE [cand.p EXCEPT !.hash = file[f].hash]} :
       /\ hd[h].st = "closed"
       /\ \A g \in 1..(h - 1) : hd[g].st # "closed"
       /\ Writers(f) = {} /\ (mode # "r" => Users(f) = {})
       /\ file[f].st \in {"absent", "db"}
       /\ file[f].st = "db" => file[f].known
       \* creating with refused options leaves an unspecified file behind: not wanted
       /\ \E rc \in {RcOk, RcErr} :
            /\ Open(h, f, mode, p, rc, 0)
            /\ ~(rc = RcErr /\ Creates(f, mode))
            /\ Log([op |-> "open", h |-> h, f |-> f, mode |-> mode, p |-> p, cache |-> cand.cache,
                    rearr |-> cand.rearr, nb |-> cand.nb, cmp |-> cand.cmp])

KeyFor(h, kind) ==
  LET dom == Dom(hd[h].m) IN
  CASE kind = "new" /\ dom # KeyIds -> RandomElement(KeyIds \ dom)
    [] kind # "new" /\ dom # {} -> RandomElement(dom)
    [] OTHER -> RK
ValFor(h, k, kind) ==
  IF kind = "fit" THEN RandomElement({v \in 1..Len(env.vl) : hd[h].m[k] = NoVal \/ env.vl[v] <= env.vl[hd[h].m[k]]}) ELSE RV

PutOp(kind) ==
  /\ HaveOpen
  /\ \E h \in {IF HaveWriter /\ RandomElement(1..20) > 1 THEN RW ELSE RH} :
     \E k \in {KeyFor(h, kind)} : \E v \in {ValFor(h, k, kind)} :
     \E flag \in {IF RandomElement(1..4) = 1 THEN FlagNoOverwrite ELSE 0} :
     \E rc \in {RcOk, RcErr} :
          /\ Put(h, k, v, flag, rc, 0)
          /\ Log([op |-> "put", h |-> h, k |-> k, v |-> v, flag |-> flag])

BulkOp ==
  /\ HaveWriter
  /\ \E h \in {RW} : \E n \in {RandomElement(1..Profile.bulk)} :
     LET free == {k \in KeyIds : hd[h].m[k] = NoVal /\ env.kl[k] <= MaxKey(HFile(h))} IN
     \E vs \in {TLCEval([k \in KeyIds |-> IF k \in free /\ RandomElement(1..Cardinality(free)) <= n THEN RV ELSE NoVal])} :
        /\ \E k \in KeyIds : vs[k] # NoVal
        /\ PutMany(h, vs, 0)
        /\ Log([op |-> "putn", h |-> h, vs |-> vs])

BufFor(h, k) == IF hd[h].m[k] = NoVal THEN -1
                ELSE LET n == env.vl[hd[h].m[k]] IN Pick(<<-1, -1, n, n + 1, n + 700, (n * 2) \div 3>>)
GetOp ==
  /\ HaveOpen
  /\ \E h \in {RH} : \E k \in {RK} : \E buf \in {BufFor(h, k)} :
       Log([op |-> "get", h |-> h, k |-> k, buf |-> buf]) /\ UNCHANGED vars

GetAllOp == HaveOpen /\ \E h \in {RH} : Log([op |-> "getall", h |-> h]) /\ UNCHANGED vars
ScanOp == HaveOpen /\ \E h \in {RH} : \E d \in {Pick(<<"F", "L", "N", "P">>)} : \E wd \in {RandomElement({0, 1})} :
            Log([op |-> "scan", h |-> h, d |-> d, wd |-> wd]) /\ UNCHANGED vars
DelOp == HaveOpen /\ \E h \in {RH} : \E k \in {RK} : Log([op |-> "del", h |-> h, k |-> k]) /\ UNCHANGED vars

CurOpenOp ==
  /\ HaveOpen
  /\ \E c \in 1..NC : \E h \in {RH} :
       /\ \A d \in 1..(c - 1) : cr[d].st # "closed"
       /\ CurOpen(h, c, RcOk) /\ Log([op |-> "copen", h |-> h, c |-> c])
Running == {c \in 1..NC : cr[c].st \in {"fresh", "run"} /\ IsOpen(cr[c].h)}
StepFor(c) ==
  LET on == IF cr[c].dir = "fwd" THEN "N" ELSE "P"
      d == IF cr[c].st = "run" /\ RandomElement(1..8) > 1 THEN on ELSE Pick(<<"F", "L", "F", "L", "N", "P">>)
  IN IF d \in {"N", "P"} /\ CurUnspec(c, d) THEN on ELSE d
CurGetOp ==
  /\ Running # {}
  /\ \E c \in {RandomElement(Running)} : \E d \in {TLCEval(StepFor(c))} : \E wd \in {RandomElement({TRUE, FALSE})} :
     LET left == LeftOf(c, d) IN
        /\ ~CurUnspec(c, d)
        /\ IF left = {} THEN CurGet(c, d, wd, -1, -1, RcMiss, 0, 0, 0)
           ELSE \E k \in {RandomElement(left)} : CurGet(c, d, wd, -1, -1, RcOk, k, hd[cr[c].h].m[k], 0)
        /\ Log([op |-> "cget", c |-> c, d |-> d, wd |-> IF wd THEN 1 ELSE 0])
CurCloseOp ==
  \E c \in 1..NC : cr[c].st # "closed" /\ CurClose(c, RcOk) /\ Log([op |-> "cclose", c |-> c])

WHandle == IF HaveWriter /\ RandomElement(1..10) > 1 THEN RW ELSE RH
UserSetOp ==
  /\ HaveOpen
  /\ \E h \in {WHandle} : \E v \in {RV} :
     \E rc \in {RcOk, RcErr} : UserSet(h, v, rc, 0) /\ Log([op |-> "uset", h |-> h, v |-> v])
UserGetOp == HaveOpen /\ \E h \in {RH} : Log([op |-> "uget", h |-> h, buf |-> -1]) /\ UNCHANGED vars
CapOp == HaveOpen /\ \E h \in {RH} : Log([op |-> "caps", h |-> h]) /\ UNCHANGED vars
CfgSetAllOp ==
  /\ HaveOpen
  /\ \E h \in {WHandle} : \E x \in {RandomElement(1..10)} : \E base \in {RandomElement(0..3) * 100} :
     LET n == file[HFile(h)].ncfg IN
     \E s \in {TLCEval([i \in 1..(IF x = 1 THEN n + 1 ELSE n) |-> <<base + i * 7, RandomElement(0..Profile.maxtag)>>])} :
     \E rc \in {RcOk, RcErr} : CfgSetAll(h, s, rc, 0) /\ Log([op |-> "csetall", h |-> h, s |-> s])
CfgGetAllOp == HaveOpen /\ \E h \in {RH} : Log([op |-> "cgetall", h |-> h]) /\ UNCHANGED vars
CfgSetOneOp ==
  /\ HaveOpen
  /\ \E h \in {WHandle} : LET n == file[HFile(h)].ncfg IN
     \E ix \in {IF RandomElement(1..12) = 1 THEN Pick(<<-1, n, n + 5>>) ELSE RandomElement(0..(n - 1))} :
     \E cf \in {IF ix >= 0 /\ ix < Len(hd[h].cfg) /\ RandomElement(1..8) > 1 THEN hd[h].cfg[ix + 1][1] ELSE 5} :
     \E tag \in {RandomElement(0..Profile.maxtag)} :
     \E rc \in {RcOk, RcErr} : CfgSetOne(h, ix, cf, tag, rc, 0) /\ Log([op |-> "cset1", h |-> h, ix |-> ix, cf |-> cf, tag |-> tag])
CfgGetOneOp ==
  /\ HaveOpen
  /\ \E h \in {RH} : LET n == Len(hd[h].cfg) IN
     \E cf \in {IF n > 0 /\ RandomElement(1..8) > 1 THEN hd[h].cfg[RandomElement(1..n)][1] ELSE 3} :
       Log([op |-> "cget1", h |-> h, cf |-> cf]) /\ UNCHANGED vars

SyncOp == HaveOpen /\ \E h \in {RH} : Sync(h, RcOk, 0) /\ Log([op |-> "sync", h |-> h])
CloseOp == HaveOpen /\ \E h \in {RH} : Close(h, RcOk, 0) /\ Log([op |-> "close", h |-> h])
\* a crash is only interesting when what it leaves is specified
KillOp == /\ HaveOpen
          /\ \A f \in 1..NF : Writers(f) # {} => file[f].known
          /\ Kill /\ Log([op |-> "kill"])
\* sync immediately followed by a crash
SyncKillOp ==
  /\ HaveWriter
  /\ \E h \in {RW} :
       /\ CursorsOf(h) = {}
       /\ \A f \in 1..NF : Writers(f) # {} => (f = HFile(h) \/ file[f].known)
       /\ AllClosed
       /\ file' = [file EXCEPT ![HFile(h)] = [@ EXCEPT !.known = TRUE, !.m = hd[h].m, !.ui = hd[h].ui, !.cfg = hd[h].cfg, !.dig = ""]]
       /\ UNCHANGED env
       /\ Log([op |-> "synckill", h |-> h])
CopyOp == /\ NF > 1
          /\ \E f, g \in 1..NF : f # g /\ file[f].st = "db" /\ file[f].known /\ Users(g) = {} /\ Writers(f) = {}
                              /\ CopyFile(f, g) /\ Log([op |-> "copy", f |-> f, g |-> g])
DigestOp == \E f \in 1..NF : file[f].st = "db" /\ Writers(f) = {} /\ Digest(f, "x") /\ Log([op |-> "digest", f |-> f])
RemoveOp == \E f \in 1..NF : file[f].st = "db" /\ Users(f) = {} /\ RemoveFile(f) /\ Log([op |-> "remove", f |-> f])

Do(o) ==
  CASE o = "open" -> OpenOp      [] o = "put" -> PutOp("new")   [] o = "reput" -> PutOp("any") [] o = "refit" -> PutOp("fit")
    [] o = "bulk" -> BulkOp      [] o = "get" -> GetOp          [] o = "getall" -> GetAllOp
    [] o = "scan" -> ScanOp      [] o = "del" -> DelOp          [] o = "copen" -> CurOpenOp
    [] o = "cget" -> CurGetOp    [] o = "cclose" -> CurCloseOp  [] o = "uset" -> UserSetOp
    [] o = "uget" -> UserGetOp   [] o = "caps" -> CapOp         [] o = "csetall" -> CfgSetAllOp
    [] o = "cgetall" -> CfgGetAllOp [] o = "cset1" -> CfgSetOneOp [] o = "cget1" -> CfgGetOneOp
    [] o = "sync" -> SyncOp      [] o = "close" -> CloseOp      [] o = "kill" -> KillOp
    [] o = "synckill" -> SyncKillOp [] o = "copy" -> CopyOp     [] o = "digest" -> DigestOp
    [] o = "remove" -> RemoveOp

\* what the harness needs to finish a behaviour: what is still open
Final == [ops |-> hist,
          cur |-> {c \in 1..NC : cr[c].st # "closed"},
          hds |-> OpenHandles,
          dbs |-> {<<f, file[f].hash>> : f \in {g \in 1..NF : file[g].st = "db" /\ (file[g].known \/ Writers(g) # {})}}]

GNext == /\ ~fin
         /\ IF Len(hist) >= Depth
            THEN /\ PrintT("BEH " \o ToJson(Final)) /\ fin' = TRUE /\ UNCHANGED <<env, file, hd, cr, hist>>
            ELSE /\ fin' = FALSE
                 /\ \/ \E j \in {RandomElement(1..Len(Ops))} : Do(Ops[j])
                    \/ \E j \in {RandomElement(1..Len(Ops))} : Do(Ops[j])
                    \/ Log([op |-> "skip"]) /\ UNCHANGED vars

GSpec == GInit /\ [][GNext]_gvars
GInv == TypeOK /\ ExclusiveWriter /\ ReadersSeeDurable /\ CommittedMatches /\ CursorLeftExists /\ KeysFit /\ UserFits /\ CfgShape
=============================================================================

----------------------------- MODULE StoreGen ------------------------------
(***************************************************************************)
(* Generates behaviours of Store (TLC -simulate); same conventions as      *)
(* FileDBGen.  Files 1..Profile.nconf hold single-configuration stores,    *)
(* the others ensembles; all data are of one class, the ensembles use      *)
(* those of the default's length.                                          *)
(***************************************************************************)
EXTENDS Store, Json, IOUtils

Profile == JsonDeserialize(IOEnv.GEN_PROFILE)
Depth == Profile.depth
Ops == Profile.ops

VARIABLES hist, fin
gvars == <<senv, fil, dbo, sl, hist, fin>>

GInit == /\ senv = [kl |-> Profile.kl, vl |-> Profile.vl, kd |-> Profile.kd, vd |-> [i \in 1..Len(Profile.vl) |-> 1], fds |-> -1, live |-> -1]
         /\ fil = [f \in 1..NF |-> NoFile]
         /\ dbo = [d \in 1..ND |-> NoDb]
         /\ sl = [s \in 1..NS |-> NoStore]
         /\ hist = <<>> /\ fin = FALSE

Pick(s) == s[RandomElement(1..Len(s))]
Log(r) == hist' = Append(hist, r)
RCs == {0, -1}
ConfFiles == 1..Profile.nconf
EnsFiles == (Profile.nconf + 1)..NF
Slots(P(_)) == {s \in 1..NS : sl[s].k # "none" /\ P(s)}
EqVals == {v \in ValIds : senv.vl[v] = senv.vl[Default]}
Typed(k) == senv.kd[k] = 1

NewOp ==
  \E s \in 1..NS : \E d \in 1..ND : \E kind \in {Pick(<<"conf", "ens">>)} :
  \E o \in {LET x == Pick(Profile.opts) IN IF kind = "ens" THEN [x EXCEPT !.ncfg = 0] ELSE x} :
  \E n \in {RandomElement(0..3)} : \E base \in {RandomElement({0, 5, 100})} : \E ctor \in {RandomElement({1, 2})} :
  \E cfgs \in {TLCEval([i \in 1..(IF kind = "ens" THEN n ELSE 0) |-> <<base + 7 * i, IF ctor = 2 THEN RandomElement({0, 101, 113, 150}) ELSE 0>>])} :
     /\ sl[s].k = "none" /\ \A t \in 1..(s - 1) : sl[t].k # "none"
     /\ dbo[d].st = "none" /\ \A t \in 1..(d - 1) : dbo[t].st # "none"
     /\ kind = "ens" => EnsFiles # {}
     /\ kind = "conf" => ConfFiles # {}
     /\ New(s, d, kind, Profile.cod, o, cfgs)
     /\ Log([op |-> "new", s |-> s, kind |-> kind, opt |-> o, ctor |-> IF n = 0 THEN 0 ELSE ctor, cfgs |-> cfgs])

OpenOp ==
  \E s \in Slots(LAMBDA x : sl[x].k \in {"conf", "ens"}) : \E f \in (IF sl[s].k = "conf" THEN ConfFiles ELSE EnsFiles) :
  \E mode \in {Pick(Profile.modes)} : \E rc \in RCs :
     /\ Creates(f, mode) \/ fil[f].st = "db"      \* the interesting ones
     \* a default-constructed ensemble store on an empty file is not usable
     /\ sl[s].k = "ens" => ~((Creates(f, mode) \/ Dom(fil[f].m) = {}) /\ sl[s].nb = 0)
     \* other objects of the same database object keep the configurations they have
     /\ sl[s].k = "ens" => Refs(sl[s].d) = {s}
     /\ Open(s, f, mode, rc)
     /\ Log([op |-> "open", s |-> s, f |-> f, mode |-> mode])
MissOp ==
  \E s \in Slots(LAMBDA x : sl[x].k = "conf") : \E f \in ConfFiles : \E mode \in {"r", "w"} :
     /\ fil[f].st = "absent" /\ Open(s, f, mode, -1) /\ Log([op |-> "open", s |-> s, f |-> f, mode |-> mode])

CopyOp == \E s \in Slots(LAMBDA x : sl[x].k = "conf" \/ (sl[x].k = "ens" /\ IsOpen(x))) : \E t \in 1..NS : Copy(s, t) /\ Log([op |-> "copy", s |-> s, t |-> t])
DelOp == \E s \in Slots(LAMBDA x : TRUE) : Destroy(s) /\ Log([op |-> "del", s |-> s])
\* closing a union leaves it without members: nothing more is asked of it
CloseOp == \E s \in Slots(LAMBDA x : sl[x].k \in {"conf", "ens"}) : Close(s, 0) /\ Log([op |-> "close", s |-> s])
FlushOp == \E s \in Slots(LAMBDA x : sl[x].k \in {"conf", "ens"}) : Flush(s) /\ Log([op |-> "flush", s |-> s])

\* closed ensemble stores are not asked anything
Askable(x) == sl[x].k # "ens" \/ IsOpen(x)
InsOp ==
  \E s \in {LET w == Slots(LAMBDA x : sl[x].k = "conf" /\ Writable(x)) IN
             RandomElement(IF w = {} \/ RandomElement(1..10) = 1 THEN Slots(LAMBDA x : sl[x].k = "conf") ELSE w)} :
  \E k \in {RandomElement(KeyIds)} : \E v \in {RandomElement(IF RandomElement(1..3) = 1 THEN ValIds ELSE EqVals)} :
  \E how \in {IF Typed(k) THEN Pick(<<"t", "s", "b">>) ELSE Pick(<<"s", "b">>)} : \E rc \in RCs :
     Insert(s, k, v, rc) /\ Log([op |-> "ins", s |-> s, k |-> k, v |-> v, how |-> how])
OpenEns == Slots(LAMBDA x : sl[x].k = "ens" /\ IsOpen(x) /\ sl[x].nb > 0)
EinsOp ==
  \E s \in {RandomElement(OpenEns)} : \E k \in {RandomElement({j \in KeyIds : Typed(j)})} :
  \E vs \in {TLCEval([i \in 1..sl[s].nb |-> RandomElement(EqVals)])} : \E how \in {Pick(<<"t", "s", "b">>)} : \E rc \in RCs :
     EnsInsert(s, k, vs, rc) /\ Log([op |-> "eins", s |-> s, k |-> k, vs |-> vs, how |-> how])
UpdOp ==
  \E s \in {RandomElement(OpenEns)} : \E k \in {RandomElement({j \in KeyIds : Typed(j)})} : \E v \in {RandomElement(EqVals)} :
  \E ix \in {RandomElement(0..(sl[s].nb - 1))} : \E rc \in RCs :
     EnsUpdate(s, k, v, ix, rc) /\ Log([op |-> "upd", s |-> s, k |-> k, v |-> v, ix |-> ix, cf |-> IF Len(sl[s].own) > ix THEN sl[s].own[ix + 1][1] ELSE 0])
DoneOp == \E s \in {RandomElement(OpenEns)} : UpdateDone(s) /\ Log([op |-> "done", s |-> s])
LookOp == \E s \in {RandomElement(Slots(Askable))} : Log([op |-> "look", s |-> s, k |-> RandomElement(KeyIds)]) /\ UNCHANGED vars
GetOp == \E s \in {RandomElement(Slots(Askable))} : Log([op |-> "get", s |-> s, k |-> RandomElement(KeyIds)]) /\ UNCHANGED vars
UserOp == \E s \in {RandomElement(Slots(LAMBDA x : sl[x].k \in {"conf", "ens"} /\ Askable(x)))} : \E v \in {RandomElement(ValIds)} : \E rc \in RCs :
     senv.vl[v] > 0 /\ UserSet(s, v, rc) /\ Log([op |-> "uset", s |-> s, v |-> v])
CfgOp ==
  \E s \in {RandomElement(OpenEns)} : \E ix \in {RandomElement(0..sl[s].nb)} :
  \E cf \in {IF ix < Len(fil[FileOf(s)].cfg) /\ RandomElement(1..6) > 1 THEN fil[FileOf(s)].cfg[ix + 1][1] ELSE 3} :
  \E nm \in {RandomElement({0, 101, 113, 150, 143})} : \E ins \in {RandomElement({0, 1})} : \E tag \in {RandomElement(1..90)} : \E rc \in RCs :
     CfgSet(s, ix, cf, nm, ins, tag, rc) /\ Log([op |-> "cset", s |-> s, ix |-> ix, cf |-> cf, nm |-> nm, ins |-> ins, tag |-> tag])
UnionOp ==
  \E s \in 1..NS : \E fs \in {IF RandomElement(1..2) = 1 THEN <<1>> ELSE Pick(<<<<1, 2>>, <<2, 1>>>>)} : \E rc \in RCs :
     /\ Profile.nconf >= 2 /\ "union" \in {Profile.letters[i] : i \in 1..Len(Profile.letters)}
     /\ OpenUnion(s, "mconf", Profile.cod, fs, rc) /\ Log([op |-> "union", s |-> s, fs |-> fs])
MergeOp ==
  \E s \in {RandomElement(OpenEns)} : \E perm \in {RandomElement({0, 1})} :
  \E fs \in {TLCEval([i \in 1..sl[s].nb |-> RandomElement(IF RandomElement(1..5) = 1 THEN {0} ELSE ConfFiles)])} :
  LET n == sl[s].nb
      at(i) == IF perm = 1 THEN n - i ELSE i - 1
      ents == [i \in 1..n |-> <<at(i), sl[s].own[at(i) + 1][1], fs[i]>>]
  IN /\ Len(sl[s].own) = n
     /\ Merge(s, ents)
     /\ Log([op |-> "merge", s |-> s, ents |-> ents, ctor |-> IF perm = 1 THEN 1 ELSE RandomElement({1, 2}), budget |-> RandomElement({0, 1, 50, 500, 100000})])
KillOp == /\ \A f \in 1..NF : Writers(f) # {} => fil[f].known
          /\ EndProcess /\ Log([op |-> "kill"])
FlushKillOp ==
  \E s \in Slots(LAMBDA x : Writable(x)) :
     /\ \A f \in 1..NF : Writers(f) # {} => fil[f].known \/ f = FileOf(s)
     /\ fil' = Settle(FileOf(s)) /\ dbo' = [d \in 1..ND |-> NoDb] /\ sl' = [t \in 1..NS |-> NoStore] /\ UNCHANGED senv
     /\ Log([op |-> "flushkill", s |-> s])
DigestOp == \E f \in 1..NF : fil[f].st = "db" /\ Writers(f) = {} /\ Digest(f, "x") /\ Log([op |-> "digest", f |-> f])

AnySlot(P(_)) == Slots(P) # {}
Do(o) ==
  CASE o = "new" -> NewOp   [] o = "open" -> OpenOp  [] o = "miss" -> MissOp [] o = "copy" -> CopyOp [] o = "del" -> DelOp
    [] o = "close" -> CloseOp [] o = "flush" -> FlushOp
    [] o = "ins" -> AnySlot(LAMBDA x : sl[x].k = "conf") /\ InsOp
    [] o = "eins" -> OpenEns # {} /\ EinsOp [] o = "upd" -> OpenEns # {} /\ UpdOp [] o = "done" -> OpenEns # {} /\ DoneOp
    [] o = "look" -> AnySlot(Askable) /\ LookOp [] o = "get" -> AnySlot(Askable) /\ GetOp
    [] o = "uset" -> AnySlot(LAMBDA x : sl[x].k \in {"conf", "ens"} /\ Askable(x)) /\ UserOp
    [] o = "cset" -> OpenEns # {} /\ CfgOp  [] o = "union" -> UnionOp [] o = "merge" -> OpenEns # {} /\ MergeOp
    [] o = "kill" -> KillOp [] o = "flushkill" -> FlushKillOp [] o = "digest" -> DigestOp

Final == [ops |-> hist,
          slots |-> {s \in 1..NS : sl[s].k # "none"},
          dbs |-> {f \in 1..NF : fil[f].st = "db"},
          bare |-> {f \in EnsFiles : fil[f].st = "db" /\ Dom(fil[f].m) = {}}]
GNext == /\ ~fin
         /\ IF Len(hist) >= Depth
            THEN /\ PrintT("BEH " \o ToJson(Final)) /\ fin' = TRUE /\ UNCHANGED <<senv, fil, dbo, sl, hist>>
            ELSE /\ fin' = FALSE
                 /\ \/ \E j \in {RandomElement(1..Len(Ops))} : Do(Ops[j])
                    \/ \E j \in {RandomElement(1..Len(Ops))} : Do(Ops[j])
                    \/ Log([op |-> "skip"]) /\ UNCHANGED vars
GSpec == GInit /\ [][GNext]_gvars
GInv == TypeOK /\ ExclusiveWriter /\ SharedNames /\ KeysFit /\ UnionsReadable
=============================================================================

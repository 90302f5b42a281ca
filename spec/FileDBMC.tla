------------------------------ MODULE FileDBMC ------------------------------
(***************************************************************************)
(* Exhaustive exploration of FileDB with small constants: the specification*)
(* itself keeps the promises the properties state.                         *)
(***************************************************************************)
EXTENDS FileDB

CONSTANTS Group,           \* which family of operations is explored
          NKeys            \* how many keys

MInit == /\ env = [kl |-> SubSeq(<<4, 456, 600>>, 1, NKeys), vl |-> <<0, 3, 9>>, fds |-> -1, live |-> -1]
         /\ file = [f \in 1..NF |-> NoFile]
         /\ hd = [h \in 1..NH |-> NoHandle]
         /\ cr = [c \in 1..NC |-> NoCursor]

P(bs, hash) == [bs |-> bs, nb |-> 1, hash |-> hash, ncfg |-> 2, umax |-> 3, cache |-> 0]
\* a lookup on a damaged file never yields a wrong or missing value
DamageNeverLies ==
  \A h \in 1..NH, k \in KeyIds : IsOpen(h) /\ hd[h].cor =>
    \A x \in ({RcOk, RcMiss} \X (0..3)) : ENABLED Get(h, k, -1, x[1], x[2], IF x[2] > 0 THEN env.vl[x[2]] ELSE 0, 0) =>
       IF x[1] = RcOk THEN x[2] = hd[h].m[k] /\ x[2] # 0 ELSE hd[h].m[k] = NoVal
Rcs == {RcOk, RcErr, RcMiss}
OpenN == \E h \in 1..NH, f \in 1..NF, mode \in {"r", "w", "c", "e", "t"}, bs \in (IF NF > 1 THEN {300} ELSE {300, 100000000}), hash \in (IF NF > 1 THEN {0} ELSE {0, 1}), rc \in {RcOk, RcErr} :
            (file[f].st = "db" => file[f].known) /\ Open(h, f, mode, P(bs, hash), rc, 0)
PutN == \E h \in 1..NH, k \in KeyIds, v \in 1..3, flag \in {0, FlagNoOverwrite}, rc \in {RcOk, RcErr} : Put(h, k, v, flag, rc, 0)
GetN == \E h \in 1..NH, k \in KeyIds, v \in 0..3, buf \in {-1, 2, 9}, rc \in Rcs :
            Get(h, k, buf, rc, v, IF v > 0 THEN env.vl[v] ELSE 0, 0)
CurN == \/ \E h \in 1..NH, c \in 1..NC : CurOpen(h, c, RcOk)
        \/ \E c \in 1..NC, op \in {"F", "L", "N", "P"}, rc \in Rcs, k \in 0..NK, v \in 0..3 : CurGet(c, op, TRUE, -1, -1, rc, k, v, 0)
        \/ \E c \in 1..NC : CurClose(c, RcOk)
MetaN == \/ \E h \in 1..NH, v \in 1..3, rc \in {RcOk, RcErr} : UserSet(h, v, rc, 0)
         \/ \E h \in 1..NH, s \in {<<<<1, 0>>, <<2, 1>>>>, <<<<1, 1>>>>}, rc \in {RcOk, RcErr} : CfgSetAll(h, s, rc, 0)
         \/ \E h \in 1..NH, ix \in {-1, 0, 1, 2}, cf \in 1..2, tag \in 0..1, rc \in {RcOk, RcErr} : CfgSetOne(h, ix, cf, tag, rc, 0)
DurN == \/ \E h \in 1..NH, rc \in {RcOk, RcErr}, fi \in 0..1 : Sync(h, rc, fi) \/ Close(h, rc, fi)
        \/ Kill
        \/ \E h \in 1..NH : BrokenClose(h)
Damages == {[safe |-> {1}, must |-> {}, part |-> "page"], [safe |-> {}, must |-> {1}, part |-> "page"], [safe |-> {}, must |-> {}, part |-> "header"]}
EnvN == \/ \E f, g \in 1..NF : f # g /\ CopyFile(f, g)
        \/ \E f \in 1..NF : RemoveFile(f) \/ Clobber(f)
        \/ \E f \in 1..NF, h \in 1..NH : Open(h, f, "r", P(512, 0), RcErr, 0)
DmgN == \/ \E f, g \in 1..NF, d \in Damages : f # g /\ Corrupt(f, g, d)
        \/ \E f, g \in 1..NF, ver \in {5, 6} : f # g /\ ConvertFile(f, g, ver, 1)

MNext == \/ OpenN \/ DurN
         \/ "put" \in Group /\ PutN
         \/ "get" \in Group /\ GetN
         \/ "cur" \in Group /\ CurN
         \/ "meta" \in Group /\ MetaN
         \/ "env" \in Group /\ EnvN
         \/ "dmg" \in Group /\ DmgN

MSpec == MInit /\ [][MNext]_vars

\* every lookup has exactly one possible result on an intact, open database
LookupDeterministic ==
  \A h \in 1..NH, k \in KeyIds : IsOpen(h) /\ ~hd[h].cor =>
    Cardinality({x \in (Rcs \X (0..3)) : (x[1] # RcOk => x[2] = 0) /\
        ENABLED Get(h, k, -1, x[1], x[2], IF x[2] > 0 THEN env.vl[x[2]] ELSE 0, 0)}) = 1
\* every store is either accepted or refused
StoreDecided ==
  \A h \in 1..NH, k \in KeyIds, v \in 1..3 : IsOpen(h) /\ ~hd[h].cor =>
    ((ENABLED Put(h, k, v, 0, RcOk, 0)) <=> ~(ENABLED Put(h, k, v, 0, RcErr, 0)))
=============================================================================

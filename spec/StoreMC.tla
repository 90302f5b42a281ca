------------------------------ MODULE StoreMC ------------------------------
(* Exhaustive exploration of Store with small constants.                    *)
EXTENDS Store

CONSTANTS Group, NK

MInit ==
  /\ senv = [kl |-> SubSeq(<<8, 12>>, 1, NK), vl |-> <<4, 4, 9>>, kd |-> SubSeq(<<1, 0>>, 1, NK), vd |-> <<1, 1, 1>>, fds |-> -1, live |-> -1]
  /\ fil = [f \in 1..NF |-> NoFile]
  /\ dbo = [d \in 1..ND |-> NoDb]
  /\ sl = [s \in 1..NS |-> NoStore]

Opt == [bs |-> 512, umax |-> 5, ncfg |-> 1, cache |-> 0]
Cfg2 == <<<<7, 0>>, <<9, 0>>>>
RCs == {0, -1}
FreeD == {d \in 1..ND : dbo[d].st = "none"}
NewN == \E s \in 1..NS : FreeD # {} /\ LET d == CHOOSE x \in FreeD : \A y \in FreeD : x <= y IN
          \/ "conf" \in Group /\ New(s, d, "conf", "s", Opt, <<>>)
          \/ "ens" \in Group /\ New(s, d, "ens", "s", Opt, Cfg2)
LifeN == \/ \E s, t \in 1..NS : "copy" \in Group /\ Copy(s, t)
         \/ \E s \in 1..NS : Destroy(s) \/ (Close(s, 0)) \/ Flush(s)
         \/ \E s \in 1..NS, f \in 1..NF, mode \in {"r", "w", "c"}, rc \in RCs :
              /\ sl[s].k = "ens" => \A t \in 1..NS : sl[t].k = "conf" => ~(IsOpen(t) /\ FileOf(t) = f)
              /\ (fil[f].st = "db" => (sl[s].k = "ens") = (fil[f].ncfg = 2))
              /\ Open(s, f, mode, rc)
         \/ EndProcess
ConfN == \E s \in 1..NS, k \in KeyIds, v \in 1..3, rc \in RCs : Insert(s, k, v, rc)
EnsN == \/ \E s \in 1..NS, k \in KeyIds, v, w \in 1..2, rc \in RCs : EnsInsert(s, k, <<v, w>>, rc) \/ EnsInsert(s, k, <<v>>, rc)
        \/ \E s \in 1..NS, k \in KeyIds, v \in 1..3, ix \in 0..2, rc \in RCs : EnsUpdate(s, k, v, ix, rc)
        \/ \E s \in 1..NS : UpdateDone(s)
        \/ \E s \in 1..NS, ix \in 0..2, cf \in {7, 9}, rc \in RCs : CfgSet(s, ix, cf, 1, 1, 5, rc)
UnionN == \E s \in 1..NS, fs \in {<<1, 2>>, <<2, 1>>}, rc \in RCs : OpenUnion(s, "mconf", "s", fs, rc)
MergeN == \E s \in 1..NS, f, g \in 0..NF : Merge(s, <<<<0, 7, f>>, <<1, 9, g>>>>)

MNext == \/ NewN \/ LifeN
         \/ "conf" \in Group /\ ConfN
         \/ "upd" \in Group /\ EnsN
         \/ "union" \in Group /\ UnionN
         \/ "merge" \in Group /\ MergeN
MSpec == MInit /\ [][MNext]_vars

\* a store touches at most one key; an update at most one configuration
OneKey == [][\A f \in 1..NF : fil[f].st = "db" /\ fil'[f].st = "db" =>
              \/ fil[f].m = fil'[f].m
              \/ Cardinality({k \in KeyIds : fil[f].m[k] # fil'[f].m[k]}) = 1
              \/ Dom(fil[f].m) = {}]_vars
\* keys never disappear as long as the file exists
KeysStay == [][\A f \in 1..NF : fil[f].st = "db" /\ fil'[f].st = "db" => Dom(fil[f].m) \subseteq Dom(fil'[f].m)]_vars
\* nothing changes without a writer
NoWriterNoChange == [][\A f \in 1..NF : Writers(f) = {} /\ fil[f].st = "db" => fil'[f].m = fil[f].m /\ (Dom(fil[f].m) # {} => fil'[f].cfg = fil[f].cfg)]_vars
\* merged data of every configuration are those of its file
MergedRight == [][\A s \in 1..NS, f, g \in 1..NF :
    Merge(s, <<<<0, 7, f>>, <<1, 9, g>>>>) =>
      \A k \in KeyIds : fil[f].m[k] # <<>> => fil'[FileOf(s)].m[k] = fil[f].m[k] \o fil[g].m[k]]_vars
\* every lookup has exactly one result
LookupDecided ==
  \A s \in 1..NS, k \in KeyIds : sl[s].k # "none" =>
     LET res == {<<>>} \cup {<<v>> : v \in 1..3} \cup {<<v, w>> : v \in 1..3, w \in 1..3} IN
     Cardinality({x \in (RCs \X res) : (x[1] # 0 => x[2] = <<>>) /\ ENABLED Get(s, "t", k, x[1], x[2])}) = 1
=============================================================================

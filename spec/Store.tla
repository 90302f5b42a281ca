------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* The C++ layer: typed stores over one database file (ConfDataStoreDB,    *)
(* ConfDataStoreDBSimple), ensemble stores holding one datum per           *)
(* configuration for every key (AllConfStoreDB), read-only unions of       *)
(* several stores (ConfDataStoreMultipleDB, AllConfStoreMultipleDB) and    *)
(* the merge of single-configuration files into an ensemble                *)
(* (ConfDataDBMerger).                                                     *)
(*                                                                         *)
(* Keys and data objects are ids; their serialized lengths are in senv.    *)
(* The content of a file maps every key to the sequence of data objects    *)
(* stored under it: <<>> absent, length 1 in single-configuration files,   *)
(* one per configuration in ensembles.  Datum 1 is the default object.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NF,      \* files
          NS,      \* store objects
          ND       \* database objects (shared by copies of a store object)

VARIABLES senv,    \* [kl, vl: serialized lengths; kd, vd: decodable as the typed class]
          fil,     \* content of the files
          dbo,     \* database objects
          sl       \* store objects

vars == <<senv, fil, dbo, sl>>

Kinds == {"none", "conf", "ens", "mconf", "mens"}
KeyIds == 1..Len(senv.kl)
ValIds == 1..Len(senv.vl)
Default == 1

NoFile == [st |-> "absent", cod |-> "s", m |-> [k \in {} |-> <<>>], ui |-> 0, umax |-> 0, ncfg |-> 0,
           cfg |-> <<>>, bs |-> 0, known |-> TRUE, dig |-> ""]
NoDb == [st |-> "none", f |-> 0, w |-> FALSE, cod |-> "s", bs |-> 0, umax |-> 0, ncfg |-> 0, cache |-> 0]
NoStore == [k |-> "none", d |-> 0, nb |-> 0, fresh |-> FALSE, own |-> <<>>, fs |-> <<>>]

Init ==
  /\ senv = [kl |-> <<>>, vl |-> <<0>>, kd |-> <<>>, vd |-> <<1>>, fds |-> -1, live |-> -1]
  /\ fil = [f \in 1..NF |-> NoFile]
  /\ dbo = [d \in 1..ND |-> NoDb]
  /\ sl = [s \in 1..NS |-> NoStore]

Round2(b) == IF b <= 512 THEN 512 ELSE IF b <= 1024 THEN 1024 ELSE IF b <= 2048 THEN 2048 ELSE IF b <= 4096 THEN 4096
             ELSE IF b <= 8192 THEN 8192 ELSE IF b <= 16384 THEN 16384 ELSE 32768
MaxKey(f) == fil[f].bs - 56
Dom(m) == {k \in DOMAIN m : m[k] # <<>>}
RECURSIVE SumLen(_, _)
SumLen(vs, n) == IF n = 0 THEN 0 ELSE senv.vl[vs[n]] + SumLen(vs, n - 1)
TotalLen(vs) == SumLen(vs, Len(vs))

\* who has file f open
DbUsers(f) == {d \in 1..ND : dbo[d].st = "open" /\ dbo[d].f = f}
Unions(f) == {s \in 1..NS : sl[s].k \in {"mconf", "mens"} /\ \E i \in 1..Len(sl[s].fs) : sl[s].fs[i] = f}
Writers(f) == {d \in DbUsers(f) : dbo[d].w}
Free(f) == DbUsers(f) = {} /\ Unions(f) = {}

IsOpen(s) == sl[s].k \in {"conf", "ens"} /\ dbo[sl[s].d].st = "open"
FileOf(s) == dbo[sl[s].d].f
Writable(s) == IsOpen(s) /\ dbo[sl[s].d].w
Content(s) == fil[FileOf(s)].m
Refs(d) == {s \in 1..NS : sl[s].k \in {"conf", "ens"} /\ sl[s].d = d}

\* after a flush or close what is in the file is the current content
Settle(f) == [fil EXCEPT ![f].known = TRUE, ![f].dig = ""]
Dirty(f) == [fil EXCEPT ![f].known = FALSE, ![f].dig = ""]

(***************************************************************************)
(* Creating, copying, destroying store objects.                            *)
(***************************************************************************)
\* opt: [bs, umax, ncfg, cache]; cfgs: configurations of an ensemble store (may be empty)
New(s, d, kind, cod, opt, cfgs) ==
  /\ sl[s].k = "none" /\ dbo[d].st = "none"
  /\ dbo' = [dbo EXCEPT ![d] = [NoDb EXCEPT !.st = "closed", !.cod = cod, !.bs = Round2(opt.bs), !.cache = opt.cache,
                                !.umax = IF opt.umax < 0 THEN 4000 ELSE opt.umax + 1,
                                !.ncfg = IF kind = "ens" /\ Len(cfgs) > 0 THEN Len(cfgs) ELSE IF opt.ncfg = 0 THEN 1 ELSE opt.ncfg]]
  /\ sl' = [sl EXCEPT ![s] = [NoStore EXCEPT !.k = kind, !.d = d, !.nb = Len(cfgs), !.fresh = TRUE,
                              !.own = [i \in 1..Len(cfgs) |-> <<cfgs[i][1], cfgs[i][2], 0, 0>>]]]
  /\ UNCHANGED <<senv, fil>>

Copy(s, t) ==
  /\ sl[s].k \in {"conf", "ens"} /\ sl[t].k = "none"
  /\ sl' = [sl EXCEPT ![t] = sl[s]]
  /\ UNCHANGED <<senv, fil, dbo>>

CloseDb(d) ==
  /\ dbo' = [dbo EXCEPT ![d].st = "closed", ![d].f = 0, ![d].w = FALSE]
  /\ fil' = IF dbo[d].st = "open" /\ dbo[d].w THEN Settle(dbo[d].f) ELSE fil

Destroy(s) ==
  /\ sl[s].k # "none"
  /\ sl' = [sl EXCEPT ![s] = NoStore]
  /\ IF sl[s].k \in {"conf", "ens"} /\ Refs(sl[s].d) = {s}
     THEN /\ dbo' = [dbo EXCEPT ![sl[s].d] = NoDb]
          /\ fil' = IF dbo[sl[s].d].st = "open" /\ dbo[sl[s].d].w THEN Settle(dbo[sl[s].d].f) ELSE fil
     ELSE UNCHANGED <<dbo, fil>>
  /\ UNCHANGED senv

(***************************************************************************)
(* Open and close.  mode: "r" read only, "w" update, "c" create if absent, *)
(* "t" create or empty.                                                    *)
(***************************************************************************)
Creates(f, mode) == mode = "t" \/ (mode = "c" /\ fil[f].st = "absent")
OpenAllowed(d, f, mode) == Creates(f, mode) \/ (fil[f].st = "db" /\ fil[f].cod = dbo[d].cod)
FreshFile(d) == [NoFile EXCEPT !.st = "db", !.cod = dbo[d].cod, !.m = [k \in KeyIds |-> <<>>], !.umax = dbo[d].umax,
                               !.ncfg = dbo[d].ncfg, !.bs = dbo[d].bs, !.known = FALSE]

\* what clients must respect: a writer is alone on its file; an object that
\* is open is closed first (open closes it)
OpenObeys(d, f, mode) ==
  /\ dbo[d].st \in {"closed", "open"}
  /\ Unions(f) = {} \/ mode = "r"
  /\ Writers(f) \ {d} = {} /\ (mode # "r" => DbUsers(f) \ {d} = {})
  /\ fil[f].st \in {"absent", "db"}
  /\ (fil[f].st = "db" /\ mode # "t" => fil[f].known \/ (dbo[d].st = "open" /\ dbo[d].f = f))

Open(s, f, mode, rc) ==
  LET d == sl[s].d
      \* the file it had open is closed
      fil1 == IF dbo[d].st = "open" /\ dbo[d].w THEN Settle(dbo[d].f) ELSE fil
  IN
  /\ sl[s].k \in {"conf", "ens"} /\ OpenObeys(d, f, mode)
  /\ IF ~OpenAllowed(d, f, mode)
     THEN /\ rc # 0
          /\ fil' = fil1
          /\ dbo' = [dbo EXCEPT ![d].st = "closed", ![d].f = 0, ![d].w = FALSE]
          /\ UNCHANGED sl
     ELSE LET fr == IF Creates(f, mode) THEN FreshFile(d)
                    ELSE IF mode = "r" THEN fil1[f] ELSE [fil1[f] EXCEPT !.known = FALSE, !.dig = ""]
              empty == Dom(fr.m) = {}
          IN /\ dbo' = [dbo EXCEPT ![d].st = "open", ![d].f = f, ![d].w = (mode # "r")]
             /\ IF sl[s].k = "conf"
                THEN /\ rc = 0 /\ fil' = [fil1 EXCEPT ![f] = fr] /\ UNCHANGED sl
                ELSE IF empty
                THEN \* an empty ensemble takes the configurations of the store object
                     IF sl[s].nb = 0
                     THEN /\ rc # 0 /\ fil' = [fil1 EXCEPT ![f] = fr] /\ UNCHANGED sl
                     ELSE /\ rc = 0
                          /\ sl[s].nb = fr.ncfg
                          /\ fil' = [fil1 EXCEPT ![f] = IF mode = "r" THEN fr ELSE [fr EXCEPT !.cfg = sl[s].own]]
                          /\ sl' = [sl EXCEPT ![s].fresh = TRUE]
                ELSE \* otherwise the file says what its configurations are
                     /\ rc = 0 /\ fil' = [fil1 EXCEPT ![f] = fr]
                     /\ sl' = [sl EXCEPT ![s].nb = fr.ncfg, ![s].own = fr.cfg, ![s].fresh = FALSE]
  /\ UNCHANGED senv

Close(s, rc) ==
  /\ rc = 0
  /\ IF sl[s].k \in {"mconf", "mens"}
     THEN sl' = [sl EXCEPT ![s].fs = <<>>] /\ UNCHANGED <<dbo, fil>>
     ELSE sl[s].k \in {"conf", "ens"} /\ CloseDb(sl[s].d) /\ UNCHANGED sl
  /\ UNCHANGED senv

Flush(s) ==
  /\ sl[s].k \in {"conf", "ens"}
  /\ fil' = IF Writable(s) THEN Settle(FileOf(s)) ELSE fil
  /\ UNCHANGED <<senv, dbo, sl>>

\* name of the file, 0 when closed
Name(s, f) == sl[s].k \in {"conf", "ens"} /\ f = (IF IsOpen(s) THEN FileOf(s) ELSE 0) /\ UNCHANGED vars

(***************************************************************************)
(* Storing.  A closed or read-only store refuses; a replacement must not   *)
(* be longer; a key must fit on a page.                                    *)
(***************************************************************************)
Refused(s, k, vs) ==
  \/ ~Writable(s)
  \/ senv.kl[k] > MaxKey(FileOf(s))
  \/ Content(s)[k] # <<>> /\ TotalLen(vs) > TotalLen(Content(s)[k])

Store(s, k, vs, rc) ==
  IF Refused(s, k, vs) THEN rc # 0 /\ UNCHANGED fil
  ELSE /\ rc = 0
       /\ fil' = [Dirty(FileOf(s)) EXCEPT ![FileOf(s)].m[k] = vs]

Insert(s, k, v, rc) ==
  /\ sl[s].k = "conf" /\ Store(s, k, <<v>>, rc) /\ UNCHANGED <<senv, dbo, sl>>

EnsInsert(s, k, vs, rc) ==
  /\ sl[s].k = "ens" /\ IsOpen(s)
  /\ IF Len(vs) # sl[s].nb THEN rc # 0 /\ UNCHANGED fil ELSE Store(s, k, vs, rc)
  /\ UNCHANGED <<senv, dbo, sl>>

\* one configuration of one key; a key not yet there is added as long as the
\* store is fresh (no updateDone), the other configurations get the default;
\* an index that is none of the configurations' is refused
EnsUpdate(s, k, v, ix, rc) ==
  /\ sl[s].k = "ens" /\ IsOpen(s)
  /\ LET old == Content(s)[k] IN
     IF ix \notin 0..(sl[s].nb - 1) THEN rc # 0 /\ UNCHANGED fil
     ELSE IF old = <<>>
     THEN IF sl[s].fresh
          THEN /\ senv.vl[v] = senv.vl[Default]
               /\ Store(s, k, [i \in 1..sl[s].nb |-> IF i = ix + 1 THEN v ELSE Default], rc)
          ELSE rc # 0 /\ UNCHANGED fil
     ELSE IF senv.vl[v] # senv.vl[old[1]] \/ ~Writable(s)
          THEN rc # 0 /\ UNCHANGED fil
          ELSE Store(s, k, [old EXCEPT ![ix + 1] = v], rc)
  /\ UNCHANGED <<senv, dbo, sl>>

UpdateDone(s) ==
  /\ sl[s].k = "ens" /\ sl' = [sl EXCEPT ![s].fresh = FALSE] /\ UNCHANGED <<senv, fil, dbo>>

(***************************************************************************)
(* Reading.  how: "t" typed, "b" binary.                                   *)
(***************************************************************************)
View(s) == IF sl[s].k \in {"mconf", "mens"}
           THEN LET hits(k) == {i \in 1..Len(sl[s].fs) : fil[sl[s].fs[i]].m[k] # <<>>}
                IN [k \in KeyIds |-> IF hits(k) = {} THEN <<>>
                                     ELSE fil[sl[s].fs[CHOOSE i \in hits(k) : \A j \in hits(k) : i <= j]].m[k]]
           ELSE IF IsOpen(s) THEN Content(s) ELSE [k \in KeyIds |-> <<>>]

Decodable(vs) == \A i \in 1..Len(vs) : senv.vd[vs[i]] = 1

Get(s, how, k, rc, vs) ==
  /\ sl[s].k # "none"
  /\ LET x == View(s)[k] IN
     IF x = <<>> THEN rc # 0
     ELSE IF how = "t" /\ ~Decodable(x) THEN rc # 0
     ELSE rc = 0 /\ vs = x
  /\ UNCHANGED vars

Exist(s, k, yes) == sl[s].k # "none" /\ (yes = 1 <=> View(s)[k] # <<>>) /\ yes \in {0, 1} /\ UNCHANGED vars

\* a listing of a union is the listing of its members one after the other
CountIn(ks, k) == Cardinality({i \in 1..Len(ks) : ks[i] = k})
Expected(s, k) == IF sl[s].k \in {"mconf", "mens"} THEN Cardinality({i \in 1..Len(sl[s].fs) : fil[sl[s].fs[i]].m[k] # <<>>})
                  ELSE IF View(s)[k] # <<>> THEN 1 ELSE 0
ListingOk(s, ks) == /\ \A i \in 1..Len(ks) : ks[i] \in KeyIds
                    /\ \A k \in KeyIds : CountIn(ks, k) = Expected(s, k)

Keys(s, how, thrown, ks) ==
  /\ sl[s].k # "none"
  /\ IF how = "t" /\ \E k \in Dom(View(s)) : senv.kd[k] = 0 THEN thrown = 1 ELSE thrown = 0 /\ ListingOk(s, ks)
  /\ UNCHANGED vars

\* how: "t" typed keys and data, "s" binary keys and typed data, "b" both binary
Pairs(s, how, thrown, ks, vss) ==
  /\ sl[s].k # "none"
  /\ LET m == View(s)
         badk == \E k \in Dom(m) : senv.kd[k] = 0
         badv == \E k \in Dom(m) : ~Decodable(m[k])
     IN IF (how = "t" /\ badk) \/ (how \in {"t", "s"} /\ badv) THEN thrown = 1
        ELSE thrown = 0 /\ Len(ks) = Len(vss) /\ ListingOk(s, ks) /\ \A i \in 1..Len(ks) : vss[i] = m[ks[i]]
  /\ UNCHANGED vars

\* at most one pair
Some(s, thrown, ks, vss) ==
  /\ sl[s].k = "conf"
  /\ LET m == View(s) IN
     IF Dom(m) = {} THEN thrown = 0 /\ ks = <<>> /\ vss = <<>>
     ELSE IF thrown = 1 THEN \E k \in Dom(m) : senv.kd[k] = 0 \/ ~Decodable(m[k])
     ELSE Len(ks) = 1 /\ Len(vss) = 1 /\ ks[1] \in Dom(m) /\ vss[1] = m[ks[1]]
  /\ UNCHANGED vars

(* Whether the files are there can be asked of any store object, open or not. *)
FilesThere(fs, yes) ==
  /\ yes \in {0, 1}
  /\ (\A j \in 1..Len(fs) : fil[fs[j]].st # "lost") => (yes = 1 <=> \A j \in 1..Len(fs) : fil[fs[j]].st # "absent")
  /\ UNCHANGED vars

(* Comparing two key or data objects tells whether they are the same one. *)
Equal(a, b, eq, ne) == ((eq # 0) <=> (a = b)) /\ ((ne # 0) <=> (a # b)) /\ UNCHANGED vars

Size(s, n) == sl[s].k = "ens" /\ n = sl[s].nb /\ UNCHANGED vars

(***************************************************************************)
(* User data and configurations.                                           *)
(* A configuration is <<number, name, inserted, tag of type and time>>;    *)
(* name 0: none; tag 0: as created, -1: time of a merge.                   *)
(***************************************************************************)
UserSet(s, v, rc) ==
  /\ sl[s].k \in {"conf", "ens"}
  /\ IF Writable(s) /\ senv.vl[v] <= fil[FileOf(s)].umax
     THEN rc = 0 /\ fil' = [Dirty(FileOf(s)) EXCEPT ![FileOf(s)].ui = v]
     ELSE rc # 0 /\ UNCHANGED fil
  /\ UNCHANGED <<senv, dbo, sl>>

UserOf(s) == IF sl[s].k \in {"mconf", "mens"} THEN (IF sl[s].fs = <<>> THEN -1 ELSE fil[sl[s].fs[1]].ui)
             ELSE IF IsOpen(s) THEN fil[FileOf(s)].ui ELSE -1
\* v = 0: the empty string
UserGet(s, rc, v) ==
  /\ sl[s].k # "none"
  /\ IF UserOf(s) = -1 THEN rc # 0 ELSE rc = 0 /\ v = UserOf(s)
  /\ UNCHANGED vars

Caps(s, um, nc) ==
  /\ sl[s].k # "none"
  /\ sl[s].k \in {"mconf", "mens"} /\ sl[s].fs # <<>> => nc = fil[sl[s].fs[1]].ncfg
  /\ IsOpen(s) => um = fil[FileOf(s)].umax /\ nc = fil[FileOf(s)].ncfg
  /\ UNCHANGED vars

CfgSet(s, ix, cf, nm, ins, tag, rc) ==
  /\ sl[s].k = "ens" /\ IsOpen(s)
  /\ LET c == fil[FileOf(s)].cfg IN
     IF Writable(s) /\ ix \in 0..(Len(c) - 1) /\ c[ix + 1][1] = cf
     THEN rc = 0 /\ fil' = [Dirty(FileOf(s)) EXCEPT ![FileOf(s)].cfg[ix + 1] = <<cf, nm, ins, tag>>]
     ELSE rc # 0 /\ UNCHANGED fil
  /\ UNCHANGED <<senv, dbo, sl>>

CfgGet(s, cf, rc, ix, c) ==
  /\ sl[s].k = "ens" /\ IsOpen(s)
  /\ LET all == fil[FileOf(s)].cfg
         hits == {i \in 1..Len(all) : all[i][1] = cf}
     IN IF hits = {} THEN rc # 0
        ELSE LET i == CHOOSE i \in hits : \A j \in hits : i <= j IN rc = 0 /\ ix = i - 1 /\ c = all[i]
  /\ UNCHANGED vars

\* cs: sequence of <<index, number, name, inserted, tag>>
CfgAll(s, rc, cs) ==
  /\ sl[s].k = "ens" /\ IsOpen(s) /\ rc = 0
  /\ LET all == fil[FileOf(s)].cfg IN
     all # <<>> => cs = [i \in 1..Len(all) |-> <<i - 1, all[i][1], all[i][2], all[i][3], all[i][4]>>]
  /\ UNCHANGED vars

(***************************************************************************)
(* Unions of several files, read only.                                     *)
(***************************************************************************)
OpenUnion(s, kind, cod, fs, rc) ==
  /\ sl[s].k = "none"
  /\ \A i \in 1..Len(fs) : Writers(fs[i]) = {} /\ fil[fs[i]].st \in {"absent", "db"} /\ fil[fs[i]].known
  /\ IF \A i \in 1..Len(fs) : fil[fs[i]].st = "db" /\ fil[fs[i]].cod = cod
     THEN rc = 0 /\ sl' = [sl EXCEPT ![s] = [NoStore EXCEPT !.k = kind, !.fs = fs]]
     ELSE rc # 0 /\ sl' = sl
  /\ UNCHANGED <<senv, fil, dbo>>

(***************************************************************************)
(* Merge of single-configuration files into the open, empty ensemble s.    *)
(* ents: sequence of <<index, number, file or 0>>.  The budget is not a    *)
(* parameter: the result does not depend on it.                            *)
(***************************************************************************)
With(ents) == {i \in 1..Len(ents) : ents[i][3] # 0}
FirstOf(ents) == CHOOSE i \in With(ents) : \A j \in With(ents) : i <= j
MergeBase(ents) == Dom(fil[ents[FirstOf(ents)][3]].m)
\* what a merge cannot work with: it ends the program
MergeFatal(s, ents) ==
  IF With(ents) = {} THEN TRUE
  ELSE IF \E i \in With(ents) : fil[ents[i][3]].st # "db" THEN TRUE
  ELSE IF MergeBase(ents) = {} THEN TRUE
  ELSE IF \E k \in MergeBase(ents) : senv.kl[k] > MaxKey(FileOf(s)) THEN TRUE
  ELSE \E i \in With(ents) : ~(MergeBase(ents) \subseteq Dom(fil[ents[i][3]].m))
MergeObeys(s, ents) ==
  /\ sl[s].k = "ens" /\ Writable(s) /\ Dom(Content(s)) = {} /\ Len(ents) = sl[s].nb
  /\ {ents[i][1] : i \in 1..Len(ents)} = 0..(Len(ents) - 1)
  /\ \A i \in With(ents) : /\ Writers(ents[i][3]) = {} /\ fil[ents[i][3]].st \in {"db", "absent"}
                            /\ \A k \in Dom(fil[ents[i][3]].m) : LET x == fil[ents[i][3]].m[k] IN Len(x) = 1 /\ senv.vl[x[1]] = senv.vl[Default]
Merge(s, ents) ==
  /\ MergeObeys(s, ents) /\ ~MergeFatal(s, ents)
  /\ LET at(ix) == CHOOSE i \in 1..Len(ents) : ents[i][1] = ix
         f == FileOf(s)
         datum(k, ix) == LET e == ents[at(ix)] IN IF e[3] = 0 THEN Default ELSE fil[e[3]].m[k][1]
     IN fil' = [Dirty(f) EXCEPT
           ![f].m = [k \in KeyIds |-> IF k \in MergeBase(ents) THEN [i \in 1..Len(ents) |-> datum(k, i - 1)] ELSE <<>>],
           ![f].cfg = [i \in 1..Len(ents) |-> IF ents[at(i - 1)][3] # 0 /\ @[i][1] = ents[at(i - 1)][2]
                                              THEN <<ents[at(i - 1)][2], ents[at(i - 1)][3], 1, -1>> ELSE @[i]]]
  /\ UNCHANGED <<senv, dbo, sl>>

(***************************************************************************)
(* End of a process: what was not flushed is unspecified.                  *)
(***************************************************************************)
EndProcess ==
  /\ dbo' = [d \in 1..ND |-> NoDb]
  /\ sl' = [s \in 1..NS |-> NoStore]
  /\ fil' = [f \in 1..NF |-> IF Writers(f) # {} /\ ~fil[f].known THEN [NoFile EXCEPT !.st = "lost", !.known = FALSE] ELSE fil[f]]
  /\ senv' = [senv EXCEPT !.fds = -1, !.live = -1]

\* with no store object left, what they used is released: the numbers of open
\* descriptors and of live allocations are those of the last such moment
Resources(fds, live) ==
  /\ \A s \in 1..NS : sl[s].k = "none"
  /\ senv.fds # -1 => fds = senv.fds /\ live = senv.live
  /\ senv' = [senv EXCEPT !.fds = fds, !.live = live]
  /\ UNCHANGED <<fil, dbo, sl>>

(***************************************************************************)
(* Memory: what open stores hold stays within their caches and an          *)
(* allowance (as in FileDB); the peak of a merge depends on the first of   *)
(* its files and on the memory budget, not on the size of all of them.     *)
(***************************************************************************)
DefaultCache == 2^27
PageCost == 256
PagesInUse == 64
Bookkeeping == 300000
ConfigSize == 256
MetaPages(f) == (fil[f].umax + fil[f].ncfg * ConfigSize) \div fil[f].bs + 2
CacheBytes(d) == IF dbo[d].cache = 0 THEN DefaultCache ELSE dbo[d].cache
HeldBy(d) == LET f == dbo[d].f IN
  (CacheBytes(d) \div fil[f].bs + MetaPages(f) + PagesInUse) * (fil[f].bs + PageCost) + Bookkeeping
RECURSIVE Allowed(_)
Allowed(ds) == IF ds = {} THEN 0 ELSE LET d == CHOOSE d \in ds : TRUE IN HeldBy(d) + Allowed(ds \ {d})
Memory(bytes) ==
  /\ \A s \in 1..NS : sl[s].k \notin {"mconf", "mens"}
  /\ bytes <= Allowed({d \in 1..ND : dbo[d].st = "open"}) + Bookkeeping
  /\ UNCHANGED vars

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MergePeak(s, ents, budget) ==
  LET first == Dom(fil[ents[FirstOf(ents)][3]].m)
      n == Cardinality(first)
      lens == {senv.kl[k] : k \in first}
      fix == senv.vl[Default]
      nc == Len(ents)
      at == budget \div ((MinOf(lens) + fix) * nc)
      portion == IF at < 1 THEN 1 ELSE IF at > n THEN n ELSE at
  IN 4 * n * (MaxOf(lens) + fix + 200) + 6 * portion * (MaxOf(lens) + nc * (fix + 100) + 400)
     + HeldBy(sl[s].d) + 4 * Bookkeeping
MergeWithin(s, ents, budget, peak) ==
  MergeObeys(s, ents) /\ ~MergeFatal(s, ents) => peak <= MergePeak(s, ents, budget)

\* the program ends itself with a diagnostic
EndsItself(why, op, s, n, ents) ==
  /\ why = "report"
  /\ \/ op = "eins" /\ sl[s].k = "ens" /\ IsOpen(s) /\ n # sl[s].nb
     \/ op = "merge" /\ MergeObeys(s, ents) /\ MergeFatal(s, ents)
  /\ EndProcess

\* bytes of a file nobody writes
Digest(f, d) ==
  /\ fil[f].st # "lost" => (fil[f].dig # "" /\ Writers(f) = {} => d = fil[f].dig)
  /\ fil' = IF Writers(f) = {} THEN [fil EXCEPT ![f].dig = d] ELSE fil
  /\ UNCHANGED <<senv, dbo, sl>>

(***************************************************************************)
(* What the specification itself promises.                                 *)
(***************************************************************************)
TypeOK ==
  /\ \A s \in 1..NS : sl[s].k \in Kinds
  /\ \A d \in 1..ND : dbo[d].st \in {"none", "closed", "open"} /\ (dbo[d].st = "open" => dbo[d].f \in 1..NF)
  /\ \A f \in 1..NF : fil[f].st \in {"absent", "db", "lost"}
ExclusiveWriter == \A f \in 1..NF : Writers(f) # {} => Cardinality(DbUsers(f)) = 1 /\ Unions(f) = {}
\* every key of an ensemble has exactly one datum per configuration, all of one size
EnsembleShape ==
  \A s \in 1..NS : sl[s].k = "ens" /\ IsOpen(s) => \A k \in Dom(Content(s)) : Len(Content(s)[k]) = sl[s].nb
SharedNames == \A s, t \in 1..NS : sl[s].k \in {"conf", "ens"} /\ sl[t].k \in {"conf", "ens"} /\ sl[s].d = sl[t].d => (IsOpen(s) <=> IsOpen(t))
KeysFit == \A f \in 1..NF : fil[f].st = "db" => \A k \in Dom(fil[f].m) : senv.kl[k] <= MaxKey(f)
UnionsReadable == \A s \in 1..NS : sl[s].k \in {"mconf", "mens"} => \A i \in 1..Len(sl[s].fs) : fil[sl[s].fs[i]].st = "db"
=============================================================================

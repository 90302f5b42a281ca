------------------------------- MODULE FileDB -------------------------------
(***************************************************************************)
(* Client-level specification of the FILEDB store.                         *)
(*                                                                         *)
(* The state is what a client of the C interface can rely on: a set of     *)
(* files with durable content, open handles with a current content,        *)
(* cursors, the user-information record and the configuration records.     *)
(* Every action carries its observable result as a parameter, so the same  *)
(* actions serve (a) exhaustive model checking with small constants        *)
(* (FileDBMC), (b) generation of behaviours that are replayed into the     *)
(* real library (FileDBGen) and (c) validation of traces recorded from     *)
(* the real library (FileDBTrace).                                         *)
(*                                                                         *)
(* Abstract values.  Keys and values are ids 1..n; id 0 means "no value".  *)
(* env.kl[k] and env.vl[v] are their byte lengths.  Value 1 always is the  *)
(* empty value.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NF,          \* number of files
          NH,          \* number of handles
          NC           \* number of cursors

VARIABLES env,         \* [kl, vl] : key and value lengths
          file,        \* durable state of every file
          hd,          \* handles
          cr           \* cursors

vars == <<env, file, hd, cr>>

NoVal   == 0
Empty   == 1           \* id of the zero-length value
RcOk    == 0
RcErr   == -1
RcMiss  == 1           \* "not found"
FlagNoOverwrite == 20

NK == Len(env.kl)
KeyIds == 1..NK
EmptyMap == [k \in KeyIds |-> NoVal]
Dom(m) == {k \in KeyIds : m[k] # NoVal}

(***************************************************************************)
(* Parameters of a database                                                *)
(***************************************************************************)
Pow2s == {2^i : i \in 0..24}
RoundUp(n) == CHOOSE p \in Pow2s : p >= n /\ \A q \in Pow2s : q >= n => p <= q
MinPage == 512
MaxPage == 1048576
ValidPage(bs) == bs <= 2^24 /\ RoundUp(bs) >= MinPage /\ RoundUp(bs) <= MaxPage
\* the header keeps the number of user information and configuration pages in
\* 16 bits each
CeilDiv(a, b) == (a + b - 1) \div b
UserPages(p) == CeilDiv((IF p.umax = 0 THEN 4000 ELSE p.umax) + 4, RoundUp(p.bs) - 28)
ConfigPages(p) == CeilDiv(IF p.ncfg = 0 THEN 1 ELSE p.ncfg, (RoundUp(p.bs) - 28) \div 148)
MaxBuckets == 2^30
ValidOptions(p) == ValidPage(p.bs) /\ p.nb <= MaxBuckets /\ UserPages(p) <= 65534 /\ ConfigPages(p) <= 65535
\* capacities this close to the limit may be refused or accepted
Borderline(p) == ValidPage(p.bs) /\ UserPages(p) \in 65500..65536
KeyRoom == 56          \* page header, index entry and data pointer
MaxKey(f) == file[f].bs - KeyRoom
\* Lengths of values from 2^30 on are represented by numbers in the same order
\* (TLC's integers have 32 bits): Len32 stands for 2^32, Len40 for 2^40.
Len32 == 2^30 + 2^28
Len40 == 2^30 + 2^29
ValTooLong(f, len) == len >= (IF file[f].ver = 5 THEN Len32 ELSE Len40)
DefaultUserLen == 4000

(***************************************************************************)
(* Files.  st: "absent" no file; "db" a database; "other" something that   *)
(* is not a database; "corrupt" a database some bytes of which were        *)
(* changed behind the library's back; "lost" what an interrupted or failed *)
(* modification left behind: nothing is specified about it.                *)
(* known: whether the durable content is specified (it is not between a    *)
(* modification and the next sync/close of the modifying handle).          *)
(***************************************************************************)
\* dmg: which lookups cannot (safe) or must (must) notice the damage of a
\* corrupted file, and whether it lies in the user information, the
\* configuration records or the header
NoDamage == [safe |-> {}, must |-> {}, part |-> "none"]
NoFile == [st |-> "absent", known |-> TRUE, m |-> <<>>, ui |-> Empty, cfg |-> <<>>,
           bs |-> 0, hash |-> 0, ver |-> 6, ncfg |-> 0, umax |-> 0, dig |-> "", maxb |-> 0, ord |-> 0, dmg |-> NoDamage]
NoHandle == [st |-> "closed", f |-> 0, w |-> FALSE, m |-> <<>>, ui |-> Empty,
             cfg |-> <<>>, cor |-> FALSE, cache |-> 0]
NoCursor == [st |-> "closed", h |-> 0, dir |-> "none", left |-> {}]

Init == /\ env = [kl |-> <<>>, vl |-> <<>>, fds |-> -1, live |-> -1]
        /\ file = [f \in 1..NF |-> NoFile]
        /\ hd = [h \in 1..NH |-> NoHandle]
        /\ cr = [c \in 1..NC |-> NoCursor]

IsOpen(h) == hd[h].st = "open"
HFile(h) == hd[h].f
Writers(f) == {h \in 1..NH : IsOpen(h) /\ hd[h].f = f /\ hd[h].w}
Users(f) == {h \in 1..NH : IsOpen(h) /\ hd[h].f = f}
CursorsOf(h) == {c \in 1..NC : cr[c].st # "closed" /\ cr[c].h = h}

(***************************************************************************)
(* Open.  mode: "r" read only, "w" read/write, "c" read/write create if    *)
(* missing, "e" the same and refused if present, "t" read/write truncate,  *)
(* "W" write only (never supported).                                       *)
(* p: [bs, nb, hash, ncfg, umax, cache]  fi: number of I/O calls made to fail.        *)
(***************************************************************************)
FreshFile(p) == [st |-> "db", known |-> FALSE, m |-> EmptyMap, ui |-> Empty, cfg |-> <<>>,
                 bs |-> RoundUp(p.bs), hash |-> p.hash, ver |-> 6,
                 ncfg |-> IF p.ncfg = 0 THEN 1 ELSE p.ncfg,
                 umax |-> IF p.umax = 0 THEN DefaultUserLen ELSE p.umax, dig |-> "", maxb |-> 0, ord |-> 0, dmg |-> NoDamage]
FreshHandle(f) == [st |-> "open", f |-> f, w |-> TRUE, m |-> EmptyMap, ui |-> Empty,
                   cfg |-> <<>>, cor |-> FALSE, cache |-> 0]
LoadedHandle(f, w) == [st |-> "open", f |-> f, w |-> w, m |-> file[f].m, ui |-> file[f].ui,
                       cfg |-> file[f].cfg, cor |-> (file[f].st = "corrupt"), cache |-> 0]

Creates(f, mode) == mode = "t" \/ (mode \in {"c", "e"} /\ file[f].st = "absent")
OpenAllowed(f, mode, p) ==
  /\ mode \in {"r", "w", "c", "e", "t"}
  /\ IF Creates(f, mode) THEN ValidOptions(p)
     ELSE mode # "e" /\ file[f].st \in {"db", "corrupt"} /\ p.hash = file[f].hash

OpenOk(h, f, mode, p) ==
  /\ hd[h].st = "closed"
  /\ Writers(f) = {} /\ (mode # "r" => Users(f) = {})
  /\ OpenAllowed(f, mode, p)
  /\ ~(file[f].st = "corrupt" /\ file[f].dmg.part = "header" /\ mode # "t")
  /\ IF Creates(f, mode)
     THEN /\ hd' = [hd EXCEPT ![h] = [FreshHandle(f) EXCEPT !.cache = p.cache]]
          /\ file' = [file EXCEPT ![f] = FreshFile(p)]
     ELSE /\ file[f].known
          /\ hd' = [hd EXCEPT ![h] = [LoadedHandle(f, mode # "r") EXCEPT !.cache = p.cache]]
          \* opening for update may relocate pages: durable content is again
          \* specified only after the next successful sync or close
          /\ file' = IF mode = "r" THEN file
                     ELSE [file EXCEPT ![f].known = FALSE, ![f].dig = ""]
  /\ UNCHANGED <<env, cr>>

\* A refused open changes no file (C15) unless the caller asked for truncation
\* or creation with unusable parameters.
OpenFail(h, f, mode, p, fi) ==
  /\ hd[h].st = "closed"
  /\ Writers(f) = {} /\ (mode # "r" => Users(f) = {})       \* what clients must respect
  /\ (~OpenAllowed(f, mode, p) \/ (Creates(f, mode) /\ Borderline(p)) \/ (file[f].st = "corrupt" /\ ~(mode = "r" /\ file[f].dmg.part = "page")) \/ fi > 0)
  /\ UNCHANGED <<env, hd, cr>>
  /\ file' = IF Creates(f, mode) /\ mode \in {"c", "e", "t"}
             THEN [file EXCEPT ![f] = [NoFile EXCEPT !.st = "lost"]]
             ELSE IF fi > 0 /\ mode # "r"
             THEN [file EXCEPT ![f].st = "lost", ![f].dig = ""]
             ELSE file

Open(h, f, mode, p, rc, fi) ==
  IF file[f].st = "lost" /\ ~Creates(f, mode)
  THEN /\ hd[h].st = "closed" /\ rc \in {RcOk, RcErr}
       /\ hd' = IF rc = RcOk THEN [hd EXCEPT ![h] = [NoHandle EXCEPT !.st = "broken", !.f = f]] ELSE hd
       /\ UNCHANGED <<env, file, cr>>
  ELSE IF rc = RcOk THEN OpenOk(h, f, mode, p) ELSE rc = RcErr /\ OpenFail(h, f, mode, p, fi)

\* What a modification does to the durable state: unspecified until the next
\* sync or close, and where damage lies is no longer known.
Touched(f) == [file EXCEPT ![f].known = FALSE, ![f].dig = "",
                           ![f].dmg = IF file[f].st = "corrupt" THEN [NoDamage EXCEPT !.part = "any"] ELSE NoDamage]

\* a modification that failed half way: nothing is specified about the handle
\* and what it leaves in the file
Breaks(h) == /\ hd' = [hd EXCEPT ![h].st = "broken"]
             /\ file' = [file EXCEPT ![HFile(h)].st = "lost", ![HFile(h)].known = FALSE, ![HFile(h)].dig = ""]

(***************************************************************************)
(* Put.                                                                    *)
(***************************************************************************)
PutRefused(h, k, v, flag) ==
  \/ ~hd[h].w
  \/ flag \notin {0, FlagNoOverwrite}
  \/ env.kl[k] > MaxKey(HFile(h)) \/ ValTooLong(HFile(h), env.vl[v])
  \/ hd[h].m[k] # NoVal /\ flag = FlagNoOverwrite
  \/ hd[h].m[k] # NoVal /\ env.vl[v] > env.vl[hd[h].m[k]]

Put(h, k, v, flag, rc, fi) ==
  /\ IsOpen(h)
  /\ IF rc = RcOk
     THEN /\ ~PutRefused(h, k, v, flag)
          /\ hd' = [hd EXCEPT ![h].m[k] = v]
          /\ file' = Touched(HFile(h))
          \* a new key may relocate entries below an open cursor
          /\ cr' = IF hd[h].m[k] # NoVal THEN cr
                   ELSE [c \in 1..NC |-> IF c \in CursorsOf(h) THEN [cr[c] EXCEPT !.st = "unspec"] ELSE cr[c]]
     ELSE /\ rc = RcErr \/ (fi > 0 /\ rc # RcOk)
          /\ IF PutRefused(h, k, v, flag)
             THEN UNCHANGED <<hd, file, cr>>         \* refused: nothing changes
             ELSE /\ fi > 0 \/ hd[h].cor             \* only failed I/O or damage excuses it
                  /\ Breaks(h)
                  /\ UNCHANGED cr
  /\ UNCHANGED env

(***************************************************************************)
(* Get.  buf < 0 or buf = 0: the library allocates.  v: id of the value    *)
(* returned, n: its length.                                                *)
(***************************************************************************)
BufTooSmall(buf, len) == buf > 0 /\ buf < len
\* read-only handles on a damaged file: lookups that cannot / must notice
Unharmed(h, k) == hd[h].cor /\ ~hd[h].w /\ k \in file[HFile(h)].dmg.safe
Harmed(h, k) == hd[h].cor /\ ~hd[h].w /\ k \in file[HFile(h)].dmg.must
MayFail(h, k, fi) == fi > 0 \/ (hd[h].cor /\ ~Unharmed(h, k))

Get(h, k, buf, rc, v, n, fi) ==
  /\ IsOpen(h)
  /\ Harmed(h, k) => rc \notin {RcOk, RcMiss}
  /\ CASE rc = RcOk   -> /\ hd[h].m[k] # NoVal
                         /\ v = hd[h].m[k] /\ n = env.vl[v]
                         /\ ~BufTooSmall(buf, env.vl[v])
       [] rc = RcMiss -> hd[h].m[k] = NoVal
       [] OTHER       -> \/ MayFail(h, k, fi)
                         \/ hd[h].m[k] # NoVal /\ BufTooSmall(buf, env.vl[hd[h].m[k]])
  /\ UNCHANGED vars

(***************************************************************************)
(* Composite observations of the same actions (one event instead of many). *)
(* PutMany: stores of distinct keys, all accepted; vs[k] = 0: not stored.  *)
(* GetAll: lookups of every key; Scan: a whole traversal plus two steps    *)
(* past its end.  (The comparisons with TRUE make TLC evaluate a predicate *)
(* over many keys as a value, not as an action.)                           *)
(***************************************************************************)
PutMany(h, vs, flag) ==
  /\ IsOpen(h)
  /\ (\A k \in KeyIds : vs[k] # NoVal => ~PutRefused(h, k, vs[k], flag)) = TRUE
  /\ hd' = [hd EXCEPT ![h].m = [k \in KeyIds |-> IF vs[k] # NoVal THEN vs[k] ELSE hd[h].m[k]]]
  /\ file' = Touched(HFile(h))
  /\ cr' = [c \in 1..NC |-> IF c \in CursorsOf(h) THEN [cr[c] EXCEPT !.st = "unspec"] ELSE cr[c]]
  /\ UNCHANGED env

LookupFailed == -9
\* ali: ids that denote the same bytes as a smaller id (stored under that one)
GetAll(h, vs, ali, fi) ==
  /\ IsOpen(h)
  /\ (\A k \in KeyIds : \/ k \in ali
                        \/ vs[k] = hd[h].m[k] /\ ~Harmed(h, k)
                        \/ vs[k] = LookupFailed /\ MayFail(h, k, fi)) = TRUE
  /\ UNCHANGED vars

Scan(h, wd, ks, vs, rcs, fi) ==
  /\ IsOpen(h)
  /\ LET m == hd[h].m
         seen == {ks[i] : i \in 1..Len(ks)}
     IN /\ Cardinality(seen) = Len(ks)
        /\ seen \subseteq Dom(m)
        /\ (wd => \A i \in 1..Len(ks) : vs[i] = m[ks[i]]) = TRUE
        /\ \/ seen = Dom(m) /\ rcs = <<RcMiss, RcMiss, RcMiss, RcOk>> /\ ~(wd /\ \E k \in Dom(m) : Harmed(h, k))
           \/ (fi > 0 \/ hd[h].cor) /\ rcs[1] \notin {RcOk, RcMiss}
  /\ UNCHANGED vars

(***************************************************************************)
(* Delete is not supported: it reports success and changes nothing.        *)
(***************************************************************************)
Del(h, k, rc) == IsOpen(h) /\ UNCHANGED vars

(***************************************************************************)
(* Cursors.  A traversal in one direction visits every key exactly once,   *)
(* in any order.                                                           *)
(***************************************************************************)
CurOpen(h, c, rc) ==
  /\ IsOpen(h) /\ cr[c].st = "closed" /\ rc = RcOk
  /\ cr' = [cr EXCEPT ![c] = [st |-> "fresh", h |-> h, dir |-> "none", left |-> {}]]
  /\ UNCHANGED <<env, file, hd>>

\* The traversal a positioning request continues (or starts)
Restart(c, op) == op \in {"F", "L"} \/ cr[c].st = "fresh"
DirOf(op) == IF op \in {"F", "N"} THEN "fwd" ELSE "bwd"
LeftOf(c, op) == IF Restart(c, op) THEN Dom(hd[cr[c].h].m) ELSE cr[c].left

\* requests about which nothing is promised
CurUnspec(c, op) == ~Restart(c, op) /\ (cr[c].st = "unspec" \/ cr[c].dir # DirOf(op))

CurGet(c, op, wd, kbuf, dbuf, rc, k, v, fi) ==
  /\ cr[c].st # "closed" /\ IsOpen(cr[c].h)
  /\ op \in {"F", "L", "N", "P"}
  /\ ~CurUnspec(c, op)
  /\ LET left == LeftOf(c, op)
         m == hd[cr[c].h].m
         small == \E x \in left : BufTooSmall(kbuf, env.kl[x]) \/ (wd /\ BufTooSmall(dbuf, env.vl[m[x]]))
     IN CASE rc = RcOk   -> /\ k \in left
                            /\ wd => v = m[k]
                            /\ cr' = [cr EXCEPT ![c].st = "run", ![c].dir = DirOf(op), ![c].left = left \ {k}]
          [] rc = RcMiss -> /\ left = {}
                            /\ cr' = [cr EXCEPT ![c].st = "run", ![c].dir = DirOf(op), ![c].left = {}]
          [] OTHER       -> /\ fi > 0 \/ hd[cr[c].h].cor \/ small
                            /\ cr' = [cr EXCEPT ![c].st = "unspec", ![c].left = {}]
  /\ UNCHANGED <<env, file, hd>>

\* such a request: whatever it returns, only a restart makes the cursor
\* predictable again
CurAny(c, op) ==
  /\ cr[c].st # "closed" /\ IsOpen(cr[c].h)
  /\ CurUnspec(c, op)
  /\ cr' = [cr EXCEPT ![c].st = "unspec", ![c].left = {}]
  /\ UNCHANGED <<env, file, hd>>

\* a request that is none of the four, a cursor of no known kind: refused, without effect
CurBad(c, rc) == cr[c].st # "closed" /\ IsOpen(cr[c].h) /\ rc = RcErr /\ UNCHANGED vars
CurOpenBad(h, rc) == IsOpen(h) /\ rc = RcErr /\ UNCHANGED vars

CurClose(c, rc) ==
  /\ cr[c].st # "closed" /\ rc = RcOk
  /\ cr' = [cr EXCEPT ![c] = NoCursor]
  /\ UNCHANGED <<env, file, hd>>

(***************************************************************************)
(* User information and configuration records.                             *)
(* cfg is <<>> while never set, else a sequence of <<config number, tag>>, *)
(* position = index + 1.                                                   *)
(***************************************************************************)
Modified(h) == file' = Touched(HFile(h))

UserSet(h, v, rc, fi) ==
  /\ IsOpen(h)
  /\ LET ok == hd[h].w /\ env.vl[v] <= file[HFile(h)].umax
     IN IF rc = RcOk
        THEN ok /\ hd' = [hd EXCEPT ![h].ui = v] /\ Modified(h)
        ELSE IF ~ok THEN rc = RcErr /\ UNCHANGED <<hd, file>>
        ELSE (fi > 0 \/ hd[h].cor) /\ Breaks(h)
  /\ UNCHANGED <<env, cr>>

UserGet(h, buf, rc, v, n, fi) ==
  /\ IsOpen(h)
  /\ LET len == env.vl[hd[h].ui]
         room == IF buf < 0 THEN file[HFile(h)].umax ELSE buf
     IN IF rc = RcOk THEN v = hd[h].ui /\ n = len /\ room >= len /\ ~(hd[h].cor /\ file[HFile(h)].dmg.part = "uinfo")
        ELSE room < len \/ hd[h].cor \/ fi > 0
  /\ UNCHANGED vars

UserMax(h, n) == IsOpen(h) /\ n = file[HFile(h)].umax /\ UNCHANGED vars
NumConfigs(h, n) == IsOpen(h) /\ n = file[HFile(h)].ncfg /\ UNCHANGED vars

CfgSetAll(h, s, rc, fi) ==           \* s : sequence of <<config, tag>>
  /\ IsOpen(h)
  /\ LET ok == hd[h].w /\ Len(s) = file[HFile(h)].ncfg
     IN IF rc = RcOk
        THEN ok /\ hd' = [hd EXCEPT ![h].cfg = s] /\ Modified(h)
        ELSE IF ~ok THEN rc = RcErr /\ UNCHANGED <<hd, file>>
        ELSE (fi > 0 \/ hd[h].cor) /\ Breaks(h)
  /\ UNCHANGED <<env, cr>>

CfgGetAll(h, rc, n, s, fi) ==        \* s : sequence of <<index, config, tag>>
  /\ IsOpen(h)
  /\ IF rc = RcOk
     THEN /\ n = file[HFile(h)].ncfg /\ ~(hd[h].cor /\ file[HFile(h)].dmg.part = "config")
          /\ hd[h].cfg # <<>> =>
               s = [i \in 1..n |-> <<i - 1, hd[h].cfg[i][1], hd[h].cfg[i][2]>>]
     ELSE hd[h].cor \/ fi > 0
  /\ UNCHANGED vars

CfgSetOne(h, ix, cf, tag, rc, fi) ==
  /\ IsOpen(h)
  /\ LET ok == /\ hd[h].w
               /\ ix >= 0 /\ ix < Len(hd[h].cfg)
               /\ hd[h].cfg[ix + 1][1] = cf
     IN IF rc = RcOk
        THEN ok /\ hd' = [hd EXCEPT ![h].cfg[ix + 1] = <<cf, tag>>] /\ Modified(h)
        ELSE IF ~ok THEN rc = RcErr /\ UNCHANGED <<hd, file>>
        ELSE (fi > 0 \/ hd[h].cor) /\ Breaks(h)
  /\ UNCHANGED <<env, cr>>

CfgGetOne(h, cf, rc, ix, tag, fi) ==
  /\ IsOpen(h)
  /\ LET s == hd[h].cfg
         hits == {i \in 1..Len(s) : s[i][1] = cf}
         first == CHOOSE i \in hits : \A j \in hits : i <= j
     IN IF rc = RcOk
        THEN hits # {} /\ ix = first - 1 /\ tag = s[first][2]
        ELSE hits = {} \/ hd[h].cor \/ fi > 0
  /\ UNCHANGED vars

(***************************************************************************)
(* Sync and close make the current content durable.                        *)
(***************************************************************************)
Commit(h) == file' = [file EXCEPT ![HFile(h)].known = TRUE, ![HFile(h)].m = hd[h].m,
                                  ![HFile(h)].ui = hd[h].ui, ![HFile(h)].cfg = hd[h].cfg,
                                  ![HFile(h)].dig = ""]

Sync(h, rc, fi) ==
  /\ IsOpen(h)
  /\ CursorsOf(h) = {} \/ ~hd[h].w
  /\ IF ~hd[h].w THEN rc = RcOk /\ UNCHANGED file
     ELSE IF rc = RcOk THEN Commit(h)
     ELSE (fi > 0 \/ hd[h].cor) /\ file' = [file EXCEPT ![HFile(h)].known = FALSE, ![HFile(h)].dig = ""]
  /\ UNCHANGED <<env, hd, cr>>

Close(h, rc, fi) ==
  /\ IsOpen(h)
  /\ CursorsOf(h) = {}
  /\ IF ~hd[h].w THEN (rc = RcOk \/ fi > 0 \/ hd[h].cor) /\ UNCHANGED file
     ELSE IF rc = RcOk THEN Commit(h)
     ELSE (fi > 0 \/ hd[h].cor) /\ file' = [file EXCEPT ![HFile(h)].st = "lost", ![HFile(h)].known = FALSE, ![HFile(h)].dig = ""]
  /\ hd' = [hd EXCEPT ![h] = NoHandle]
  /\ UNCHANGED <<env, cr>>

\* Any operation on a handle that an I/O failure left broken: only closing it.
BrokenClose(h) ==
  /\ hd[h].st = "broken"
  /\ hd' = [hd EXCEPT ![h] = NoHandle]
  /\ cr' = [c \in 1..NC |-> IF cr[c].h = h THEN NoCursor ELSE cr[c]]
  /\ UNCHANGED <<env, file>>

(***************************************************************************)
(* The process ends without closing anything (crash point chosen by the    *)
(* environment) or is restarted.                                           *)
(***************************************************************************)
AllClosed == /\ hd' = [h \in 1..NH |-> NoHandle]
             /\ cr' = [c \in 1..NC |-> NoCursor]

Kill == /\ AllClosed
        /\ env' = [env EXCEPT !.fds = -1]
        /\ file' = [f \in 1..NF |-> IF Writers(f) # {} /\ ~file[f].known
                                     THEN [file[f] EXCEPT !.st = "lost", !.dig = ""] ELSE file[f]]

\* The process ended by itself inside an operation.  why: "report" - it printed
\* a diagnostic and called exit or abort.  Allowed only when it was confronted
\* with failing I/O, a corrupted file, or a file that is no database.
\* opening: the file being opened for update at that moment, 0 if none (its
\* pages may have been half way back to their places)
\* lost: it was working with what an earlier reported failure left behind,
\* about which nothing is specified.
Died(why, fi, touchesBad, opening, lost) ==
  /\ lost \/ why = "report"
  /\ lost \/ fi > 0 \/ touchesBad
  /\ AllClosed
  /\ file' = [f \in 1..NF |-> IF (Writers(f) # {} /\ ~file[f].known) \/ (f = opening /\ file[f].st # "other")
                              THEN [file[f] EXCEPT !.st = "lost", !.dig = ""] ELSE file[f]]
  /\ env' = [env EXCEPT !.fds = -1]

(***************************************************************************)
(* Descriptors and memory held while no handle is open: always the same    *)
(* within one process (env.fds = -1: not observed yet in this process).    *)
(***************************************************************************)
Resources(fds, live) ==
  /\ \A h \in 1..NH : hd[h].st = "closed"
  /\ IF env.fds = -1 THEN env' = [env EXCEPT !.fds = fds, !.live = live]
     ELSE fds = env.fds /\ live = env.live /\ UNCHANGED env
  /\ UNCHANGED <<file, hd, cr>>

(***************************************************************************)
(* Memory held by the open handles between two operations: the pages the   *)
(* configured caches may keep, and an allowance for pages that were in use *)
(* at the same time and for bookkeeping that does not depend on how much   *)
(* is stored, looked up or visited.                                        *)
(***************************************************************************)
DefaultCache == 2^27
PageCost == 256                 \* what is kept beside each page
PagesInUse == 64
Bookkeeping == 300000
ConfigSize == 256
MetaPages(f) == (file[f].umax + file[f].ncfg * ConfigSize) \div file[f].bs + 2     \* written at once
CachePages(h) == (IF hd[h].cache = 0 THEN DefaultCache ELSE hd[h].cache) \div file[HFile(h)].bs
RECURSIVE Allowed(_)
Allowed(hs) == IF hs = {} THEN 0
               ELSE LET h == CHOOSE h \in hs : TRUE IN
                    (CachePages(h) + MetaPages(HFile(h)) + PagesInUse) * (file[HFile(h)].bs + PageCost) + Bookkeeping + Allowed(hs \ {h})
Memory(bytes) ==
  /\ \A h \in 1..NH : hd[h].st # "broken"
  /\ bytes <= Allowed({h \in 1..NH : IsOpen(h)})
  /\ UNCHANGED vars

(***************************************************************************)
(* The environment acting on files.                                        *)
(***************************************************************************)
CopyFile(f, g) ==
  /\ Users(g) = {}
  /\ file' = [file EXCEPT ![g] = IF file[f].known THEN [file[f] EXCEPT !.dig = ""]
                                 ELSE [NoFile EXCEPT !.st = "lost"]]
  /\ UNCHANGED <<env, hd, cr>>

\* rewritten in another supported on-disk representation (older version,
\* other byte order) with the same content
ConvertFile(f, g, ver, ord) ==
  /\ Users(g) = {} /\ file[f].known /\ file[f].st = "db"
  /\ file' = [file EXCEPT ![g] = [file[f] EXCEPT !.ver = ver, !.ord = ord, !.dig = ""]]
  /\ UNCHANGED <<env, hd, cr>>

\* g becomes a copy of f with a burst of at most 32 changed bits inside one
\* checksummed unit
Corrupt(f, g, dmg) ==
  /\ Users(g) = {} /\ file[f].st = "db" /\ file[f].known
  /\ file' = [file EXCEPT ![g] = [file[f] EXCEPT !.st = "corrupt", !.dig = "", !.dmg = dmg]]
  /\ UNCHANGED <<env, hd, cr>>

\* replaced by something that is not a usable database
Clobber(f) ==
  /\ Users(f) = {}
  /\ file' = [file EXCEPT ![f] = [NoFile EXCEPT !.st = "other"]]
  /\ UNCHANGED <<env, hd, cr>>

RemoveFile(f) ==
  /\ Users(f) = {}
  /\ file' = [file EXCEPT ![f] = NoFile]
  /\ UNCHANGED <<env, hd, cr>>

\* Observation of the structure of a file whose content is specified (C06).
\* spread: the hash function in use spreads the keys evenly.
HF == INSTANCE HashFile
Image(f, g, spread) ==
  /\ file[f].st = "db" /\ file[f].known =>
       /\ HF!WellFormed(g) = TRUE      \* a value: no recursion per page
       /\ g.bs = file[f].bs /\ g.ncfg = file[f].ncfg /\ g.umax = file[f].umax /\ g.ver = file[f].ver /\ g.ord = file[f].ord
       /\ g.nkeys = Cardinality(Dom(file[f].m))
       /\ (\A i \in 1..Len(g.ents) : g.ents[i][4] = file[f].m[g.ents[i][3]]) = TRUE
       /\ g.ui = file[f].ui
       /\ spread => HF!Grown(g)
       /\ g.maxb >= file[f].maxb
  /\ file' = [file EXCEPT ![f].maxb = g.maxb]
  /\ UNCHANGED <<env, hd, cr>>

\* Observation of a file's bytes: unchanged unless a writer touched it.
Digest(f, d) ==
  /\ file[f].dig # "" => d = file[f].dig
  /\ file' = [file EXCEPT ![f].dig = d]
  /\ UNCHANGED <<env, hd, cr>>

(***************************************************************************)
(* Invariants of the specification                                         *)
(***************************************************************************)
FileStates == {"absent", "db", "other", "corrupt", "lost"}
TypeOK ==
  /\ \A f \in 1..NF : file[f].st \in FileStates
  /\ \A h \in 1..NH : /\ hd[h].st \in {"closed", "open", "broken"}
                      /\ IsOpen(h) => hd[h].f \in 1..NF /\ Len(hd[h].m) = NK
  /\ \A c \in 1..NC : cr[c].st \in {"closed", "fresh", "run", "unspec"}

\* a single writer, alone on its file
ExclusiveWriter == \A f \in 1..NF : Writers(f) # {} => Cardinality(Users(f)) = 1
\* readers all see the durable content
ReadersSeeDurable ==
  \A h \in 1..NH : IsOpen(h) /\ ~hd[h].w => hd[h].m = file[HFile(h)].m /\ file[HFile(h)].known
\* when the durable content is known and a writer is open, it is the writer's
CommittedMatches ==
  \A h \in 1..NH : IsOpen(h) /\ hd[h].w /\ file[HFile(h)].known => file[HFile(h)].m = hd[h].m
\* what a cursor still has to visit exists
CursorLeftExists ==
  \A c \in 1..NC : cr[c].st = "run" /\ IsOpen(cr[c].h) => cr[c].left \subseteq Dom(hd[cr[c].h].m)
\* stored values never exceed what was allowed, keys fit a page
KeysFit == \A h \in 1..NH : IsOpen(h) => \A k \in Dom(hd[h].m) : env.kl[k] <= MaxKey(HFile(h))
UserFits == \A h \in 1..NH : IsOpen(h) => env.vl[hd[h].ui] <= file[HFile(h)].umax
CfgShape == \A h \in 1..NH : IsOpen(h) => Len(hd[h].cfg) \in {0, file[HFile(h)].ncfg}

(***************************************************************************)
(* Action properties                                                       *)
(***************************************************************************)
\* keys are never lost while a handle stays open, and values of a key only shrink or stay
KeysOnlyGrow ==
  [][\A h \in 1..NH : IsOpen(h) /\ hd'[h].st = "open" =>
        \A k \in KeyIds : hd[h].m[k] # NoVal => /\ hd'[h].m[k] # NoVal
                                               /\ env.vl[hd'[h].m[k]] <= env.vl[hd[h].m[k]]]_vars
\* a read-only handle never changes its content or its file
ReadOnlyInert ==
  [][\A h \in 1..NH : IsOpen(h) /\ ~hd[h].w /\ hd'[h].st = "open" =>
        hd'[h].m = hd[h].m /\ file'[HFile(h)].m = file[HFile(h)].m]_vars
=============================================================================

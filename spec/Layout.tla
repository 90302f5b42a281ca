------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* Design model of the file layout: linear hashing growth one bucket at a  *)
(* time, overflow and data pages placed behind the bucket pages of the     *)
(* current level, lists of freed overflow pages per level, and the         *)
(* rearrangement that moves the last pages of the file into the pages of   *)
(* buckets that do not exist yet when a database is closed and back when   *)
(* it is opened for writing.                                               *)
(*                                                                         *)
(* Every state is turned into an image and judged by HashFile!WellFormed,  *)
(* the operator that also judges decoded files, so the model shows that    *)
(* the structural property is achievable and inductive for every hash      *)
(* function and every placement of sessions within the bounds.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxKeys,   \* keys inserted
          HashVals,  \* possible hash values
          Cap,       \* entries per key page
          Slots,     \* values per data page
          Bigs,      \* possible numbers of extra data pages a value takes
          Nb         \* possible initial bucket counts (powers of two)

HF == INSTANCE HashFile
Hdr == 3             \* header, user information, configurations
None == -1

VARIABLES n,         \* keys 1..n are stored
          hash,      \* their hash values
          maxb, high, low, ovfl, sp,
          chain,     \* chain[b + 1]: pages of bucket b
          cont,      \* cont[p]: keys on key page p, in order
          val,       \* val[k]: pages and slots of the value of key k
          curr,      \* data page being filled (None: none on this level yet)
          used,      \* used[p]: slots taken on data page p
          free,      \* free[l]: freed overflow pages of level l
          moved,     \* pages moved at the last close
          top0,      \* history: number of pages before that close
          snap,      \* history: layout before that close
          st         \* "open" or "closed"

vars == <<n, hash, maxb, high, low, ovfl, sp, chain, cont, val, curr, used, free, moved, top0, snap, st>>

Levels == 0..8
EmptyFun == [x \in {} |-> 0]
Upd(f, x, y) == (x :> y) @@ f

Init ==
  \E b \in Nb :
    LET l == HF!Log2(b) IN
    /\ n = 0 /\ hash = <<>>
    /\ maxb = b - 1 /\ high = b - 1 /\ low = (b \div 2) - 1 /\ ovfl = l
    /\ sp = [i \in 1..32 |-> IF i = 1 THEN Hdr ELSE IF i = 2 /\ l >= 1 THEN Hdr + 1
                             ELSE IF i - 1 <= l THEN Hdr + 2^(i - 2) ELSE 0]
    /\ chain = [i \in 1..b |-> <<HF!BucketPage([j \in 1..32 |-> IF j = 1 THEN Hdr ELSE IF j = 2 THEN Hdr + 1 ELSE Hdr + 2^(j - 2)], i - 1)>>]
    /\ cont = [p \in {chain[i][1] : i \in 1..b} |-> <<>>]
    /\ val = <<>> /\ curr = None /\ used = EmptyFun
    /\ free = [l2 \in Levels |-> {}]
    /\ moved = 0 /\ top0 = 0 /\ snap = <<>> /\ st = "open"

Sel(h, mb, hi, lo) == HF!BucketOf(h, mb, hi, lo)

(* allocation state: [sp, curr, free]; geometry of the level is constant *)
Prepare(a, s, hi, ov) ==
  LET c == IF a.curr = None THEN HF!BucketPage(a.sp, hi) + 1 ELSE a.curr IN
  [a EXCEPT !.curr = c, !.sp = IF HF!Sp(a.sp, ov + 1) = 0 THEN [a.sp EXCEPT ![ov + 2] = c + 1] ELSE a.sp]

Alloc(a0, hi, ov) ==      \* <<page, allocation state>>
  LET a == Prepare(a0, a0.sp, hi, ov) IN
  IF a.free[ov] # {}
  THEN LET p == CHOOSE x \in a.free[ov] : \A y \in a.free[ov] : x >= y IN <<p, [a EXCEPT !.free[ov] = @ \ {p}]>>
  ELSE <<HF!Sp(a.sp, ov + 1), [a EXCEPT !.sp[ov + 2] = @ + 1]>>

LevelOf(s, ov, p) == LET ls == {l \in 0..ov : HF!Sp(s, l) <= p} IN CHOOSE l \in ls : \A m \in ls : l >= m

(* storing a value: fills the current data page, then extra whole pages *)
StoreValue(a0, u, big, hi, ov) ==
  LET a1 == Prepare(a0, a0.sp, hi, ov)
      full == a1.curr \in DOMAIN u /\ u[a1.curr] >= Slots
      r == IF full THEN Alloc(a1, hi, ov) ELSE <<a1.curr, a1>>
      a2 == IF full THEN [r[2] EXCEPT !.curr = r[1]] ELSE r[2]
      slot == IF r[1] \in DOMAIN u /\ ~full THEN u[r[1]] ELSE 0
  IN IF big = 0
     THEN <<<< <<r[1], slot>> >>, a2, Upd(u, r[1], slot + 1)>>
     ELSE LET x == Alloc(a2, hi, ov) IN     \* the rest of the page and one page more, which stays open for others
          <<<< <<r[1], slot>>, <<x[1], 0>> >>, [x[2] EXCEPT !.curr = x[1]], Upd(Upd(u, r[1], Slots), x[1], 1)>>

(* add a key at the end of a chain, with an overflow page if needed *)
AddKey(s, b, k, hi, ov) ==   \* s: [a, chain, cont]
  LET last == s.chain[b + 1][Len(s.chain[b + 1])] IN
  IF Len(s.cont[last]) < Cap
  THEN [s EXCEPT !.cont = Upd(s.cont, last, Append(s.cont[last], k))]
  ELSE LET r == Alloc(s.a, hi, ov) IN
       [s EXCEPT !.a = r[2], !.chain[b + 1] = Append(@, r[1]), !.cont = Upd(s.cont, r[1], <<k>>)]

RECURSIVE AddAll(_, _, _, _, _, _, _, _)
AddAll(s, ks, hv, mb, hi, lo, ov, i) ==
  IF i > Len(ks) THEN s
  ELSE AddAll(AddKey(s, Sel(hv[ks[i]], mb, hi, lo), ks[i], hi, ov), ks, hv, mb, hi, lo, ov, i + 1)

RECURSIVE SplitPages(_, _, _, _, _, _, _, _, _)
SplitPages(s, pages, content, hv, mb, hi, lo, ov, i) ==
  IF i > Len(pages) THEN s
  ELSE LET s1 == AddAll(s, content[i], hv, mb, hi, lo, ov, 1)
           lv == LevelOf(s1.a.sp, ov, pages[i])
           s2 == IF i = 1 THEN s1 ELSE [s1 EXCEPT !.a.free[lv] = @ \cup {pages[i]}]
       IN SplitPages(s2, pages, content, hv, mb, hi, lo, ov, i + 1)

Put(h, big) ==
  /\ st = "open" /\ n < MaxKeys
  /\ LET k == n + 1
         hv == Append(hash, h)
         b == Sel(h, maxb, high, low)
         s0 == [a |-> [sp |-> sp, curr |-> curr, free |-> free], chain |-> chain, cont |-> cont]
         s1 == AddKey(s0, b, k, high, ovfl)
         grew == Len(s1.chain[b + 1]) > Len(chain[b + 1])
         v == StoreValue(s1.a, used, big, high, ovfl)
         s2 == [s1 EXCEPT !.a = v[2]]
     IN /\ n' = k /\ hash' = hv /\ val' = Append(val, v[1]) /\ used' = v[3]
        /\ IF ~grew
           THEN /\ chain' = s2.chain /\ cont' = s2.cont
                /\ sp' = s2.a.sp /\ curr' = s2.a.curr /\ free' = s2.a.free
                /\ UNCHANGED <<maxb, high, low, ovfl>>
           ELSE LET mb == maxb + 1
                    lo == IF mb > high THEN high ELSE low
                    hi == IF mb > high THEN 2 * high + 1 ELSE high
                    ov == HF!Log2(mb + 1)
                    dbl == ov > ovfl
                    old == mb % (lo + 1)
                    a3 == [s2.a EXCEPT !.curr = IF dbl THEN None ELSE @]
                    np == HF!BucketPage(a3.sp, mb)
                    pages == s2.chain[old + 1]
                    s3 == [a |-> a3, chain |-> Append([s2.chain EXCEPT ![old + 1] = <<pages[1]>>], <<np>>),
                           cont |-> Upd(Upd(s2.cont, pages[1], <<>>), np, <<>>)]
                    s4 == SplitPages(s3, pages, [i \in 1..Len(pages) |-> s2.cont[pages[i]]], hv, mb, hi, lo, ov, 1)
                IN /\ maxb' = mb /\ high' = hi /\ low' = lo /\ ovfl' = ov
                   /\ chain' = s4.chain /\ cont' = s4.cont
                   /\ sp' = s4.a.sp /\ curr' = s4.a.curr /\ free' = s4.a.free
  /\ UNCHANGED <<moved, top0, snap, st>>

(* moving pages *)
Renumber(m, p) == IF p \in DOMAIN m THEN m[p] ELSE p
MovePages(m) ==
  /\ chain' = [i \in 1..Len(chain) |-> [j \in 1..Len(chain[i]) |-> Renumber(m, chain[i][j])]]
  /\ cont' = [p \in {Renumber(m, q) : q \in DOMAIN cont} |-> cont[CHOOSE q \in DOMAIN cont : Renumber(m, q) = p]]
  /\ val' = [k \in 1..Len(val) |-> [j \in 1..Len(val[k]) |-> <<Renumber(m, val[k][j][1]), val[k][j][2]>>]]

Close(re) ==
  /\ st = "open" /\ st' = "closed"
  /\ top0' = HF!Top(sp, ovfl)
  /\ snap' = <<chain, cont, val>>
  /\ LET unused == high - maxb
         lun == HF!BucketPage(sp, high)
         fun == HF!BucketPage(sp, maxb + 1)
         dlast == HF!Sp(sp, ovfl + 1) - 1
         cnt == IF dlast - lun < unused THEN dlast - lun ELSE unused
         first == dlast - cnt + 1
     IN IF ~re \/ unused = 0 \/ HF!Sp(sp, ovfl + 1) = 0
        THEN UNCHANGED <<chain, cont, val, moved>>
        ELSE /\ MovePages([p \in first..dlast |-> fun + p - first])
             /\ moved' = cnt
  /\ UNCHANGED <<n, hash, maxb, high, low, ovfl, sp, used, free, curr>>

Reopen ==
  /\ st = "closed" /\ st' = "open" /\ n < MaxKeys
  /\ LET fun == HF!BucketPage(sp, maxb + 1)
         newlast == HF!Sp(sp, ovfl + 1) - 1
         first == newlast - moved + 1
     IN IF moved = 0 THEN UNCHANGED <<chain, cont, val>>
        ELSE MovePages([p \in fun..(fun + moved - 1) |-> first + p - fun])
  /\ moved' = 0 /\ top0' = 0 /\ snap' = <<>>
  /\ UNCHANGED <<n, hash, maxb, high, low, ovfl, sp, used, free, curr>>

Next == \/ \E h \in HashVals, b \in Bigs : Put(h, b)
        \/ \E re \in BOOLEAN : Close(re)
        \/ Reopen
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* The image of a state                                                    *)
(***************************************************************************)
RECURSIVE Flat(_, _)
Flat(f, i) == IF i = 0 THEN <<>> ELSE Flat(f, i - 1) \o f[i]
PosOf(k) == LET p == CHOOSE q \in DOMAIN cont : \E j \in 1..Len(cont[q]) : cont[q][j] = k /\ \E i \in 1..Len(chain) : \E c \in 1..Len(chain[i]) : chain[i][c] = q
            IN <<p, CHOOSE j \in 1..Len(cont[p]) : cont[p][j] = k>>
LivePages == UNION {{chain[i][j] : j \in 1..Len(chain[i])} : i \in 1..Len(chain)}
ValPages == UNION {{val[k][j][1] : j \in 1..Len(val[k])} : k \in 1..Len(val)}
SetToSeq(S) == LET RECURSIVE F(_)
                   F(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : \A z \in T : y <= z IN <<x>> \o F(T \ {x})
               IN F(S)
ExtSet == UNION {{<<val[k][j][1], val[k][j][2], val[k][j][2] + 1>> : j \in 1..Len(val[k])} : k \in 1..Len(val)}
Lt(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
ExtSeq == LET RECURSIVE F(_)
              F(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : \A z \in T : Lt(y, z) IN <<x>> \o F(T \ {x})
          IN F(ExtSet)
NExt == LET RECURSIVE S(_)
            S(k) == IF k = 0 THEN 0 ELSE S(k - 1) + Len(val[k])
        IN S(Len(val))
MovedTo(p) == IF moved > 0 /\ p >= HF!Sp(sp, ovfl + 1) - moved /\ p < HF!Sp(sp, ovfl + 1)
              THEN HF!BucketPage(sp, maxb + 1) + p - (HF!Sp(sp, ovfl + 1) - moved) ELSE p
KSeq == Flat([i \in 1..Len(chain) |-> [j \in 1..Len(chain[i]) |-> <<i - 1, chain[i][j], chain[i][j], 1, "bucket">>]], Len(chain))
ESeq == Flat([i \in 1..Len(chain) |-> Flat([j \in 1..Len(chain[i]) |-> [c \in 1..Len(cont[chain[i][j]]) |->
              LET k == cont[chain[i][j]][c] IN <<i - 1, hash[k], k, k, chain[i][j], c, chain[i][j], c, 1>>]], Len(chain[i]))], Len(chain))
DSeq == LET q == SetToSeq(ValPages) IN [i \in 1..Len(q) |-> <<q[i], q[i], 1, "data">>]
FSeq == SetToSeq({MovedTo(p) : p \in UNION {free[l] : l \in Levels}})
Img == [hdrok |-> 1, magic |-> 1, hk |-> 1, ver |-> 6, bs |-> 512, bshift |-> 9, ovfl |-> ovfl, maxb |-> maxb, high |-> high, low |-> low,
        nkeys |-> n, hdrpages |-> Hdr, umax |-> 100, upage |-> 1, unp |-> 1, cpage |-> 2, cnp |-> 1, ncfg |-> 1, moved |-> moved, spares |-> sp,
        npages |-> HF!Top(sp, ovfl) - moved, part |-> 0, vbad |-> 0, crc |-> 1, walk |-> n, ents |-> ESeq, exts |-> ExtSeq, dpages |-> DSeq, kpages |-> KSeq,
        fmaps |-> <<>>, fpages |-> FSeq, flok |-> 1, ui |-> 1]

Structure == HF!WellFormed(Img) /\ Cardinality(ExtSet) = NExt
\* every key is found in the bucket a lookup would search
Lookup == \A k \in 1..n : \E j \in 1..Len(chain[Sel(hash[k], maxb, high, low) + 1]) :
             \E c \in 1..Len(cont[chain[Sel(hash[k], maxb, high, low) + 1][j]]) : cont[chain[Sel(hash[k], maxb, high, low) + 1][j]][c] = k
\* closing never makes the file longer
NeverLonger == st = "closed" => HF!Top(sp, ovfl) - moved <= top0
\* one bucket at a time
OneAtATime == [][maxb' \in {maxb, maxb + 1}]_vars
\* closing and opening again is the identity on the layout
RoundTrip == [][st = "closed" /\ st' = "open" => <<chain', cont', val'>> = snap]_vars
=============================================================================

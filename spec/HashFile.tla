------------------------------ MODULE HashFile ------------------------------
(***************************************************************************)
(* What the bytes of a database file must say (property C06).  An image is *)
(* the decoded content of a file:                                          *)
(*   header fields: hdrok magic ver bs bshift ovfl maxb high low nkeys     *)
(*      hdrpages umax upage unp cpage cnp ncfg hk moved spares[1..32]      *)
(*   npages, part: size of the file in pages, bytes of a partial last page *)
(*   kpages: <<bucket, page, number stored in the page, sound, type>>      *)
(*   ents:   <<bucket, hash, key, value, page, index, back page,           *)
(*             back index, sound>>                                         *)
(*   exts:   <<page, from, to>> byte ranges of values, sorted              *)
(*   dpages: <<page, number stored in the page, sound, type>>              *)
(*   fmaps, fpages: pages holding lists of free pages, pages listed there  *)
(*   walk:   number of data headers found by walking the data pages        *)
(*   vbad:   entries that could not be decoded; crc: all checksums right   *)
(*   ui:     id of the user information                                    *)
(* The same geometry operators are the state invariants of Layout.tla, the *)
(* design model of growth and page rearrangement.                          *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets

\* smallest l with 2^l >= n
Log2(n) == CHOOSE l \in 0..31 : 2^l >= n /\ (l = 0 \/ 2^(l-1) < n)

\* spares is indexed from 0 in the file
Sp(s, l) == s[l + 1]

\* page of bucket b
BucketPage(s, b) == LET l == Log2(b + 1) IN IF b = 0 THEN Sp(s, 0) ELSE b - 2^(l-1) + Sp(s, l)

\* bucket selected by a hash value; the masks are of the form 2^k - 1
BucketOf(h, maxb, high, low) ==
  LET x == h % (high + 1) IN IF x > maxb THEN h % (low + 1) ELSE x

\* Masks, level and level offsets follow from the number of buckets
MasksOk(maxb, high, low, ovfl) ==
  /\ ovfl = Log2(maxb + 1)
  /\ high = 2^ovfl - 1
  /\ IF ovfl = 0 THEN low = -1 ELSE low = 2^(ovfl - 1) - 1

SparesOk(s, ovfl, hdrpages) ==
  /\ Sp(s, 0) = hdrpages
  /\ ovfl >= 1 => Sp(s, 1) >= hdrpages + 1
  /\ \A l \in 2..ovfl : Sp(s, l) >= Sp(s, l - 1) + 2^(l - 2)
  /\ \/ Sp(s, ovfl + 1) = 0
     \/ Sp(s, ovfl + 1) >= Sp(s, ovfl) + (IF ovfl = 0 THEN 1 ELSE 2^(ovfl - 1))
  /\ \A l \in (ovfl + 2)..31 : Sp(s, l) = 0

\* first page number never used so far
Top(s, ovfl) == IF Sp(s, ovfl + 1) # 0 THEN Sp(s, ovfl + 1)
                ELSE Sp(s, ovfl) + (IF ovfl = 0 THEN 1 ELSE 2^(ovfl - 1))

\* pages of buckets that do not exist yet on the last level
FirstUnused(s, maxb) == BucketPage(s, maxb + 1)
UnusedPages(s, maxb, high) == IF maxb = high THEN {} ELSE FirstUnused(s, maxb)..BucketPage(s, high)

SetOf(q) == {q[i] : i \in 1..Len(q)}
Pg(q, j) == {q[i][j] : i \in 1..Len(q)}

HeaderOk(g) ==
  /\ g.hdrok = 1 /\ g.magic = 1 /\ g.hk = 1
  /\ g.ver \in {5, 6}
  /\ 2^g.bshift = g.bs
  /\ g.upage = 1 /\ g.unp >= 1
  /\ g.cpage = g.upage + g.unp /\ g.cnp >= 1
  /\ g.hdrpages = g.cpage + g.cnp
  /\ g.unp * (g.bs - 28) >= g.umax + 4
  /\ g.cnp * ((g.bs - 28) \div 148) >= g.ncfg
  /\ MasksOk(g.maxb, g.high, g.low, g.ovfl)
  /\ SparesOk(g.spares, g.ovfl, g.hdrpages)
  /\ g.part = 0
  /\ g.npages <= Top(g.spares, g.ovfl) - g.moved          \* moved pages were cut off

\* every key page is sound, in one chain only, and a bucket starts on its own page
KeyPagesOk(g) ==
  /\ \A i \in 1..Len(g.kpages) : g.kpages[i][3] = g.kpages[i][2] /\ g.kpages[i][4] = 1 /\ g.kpages[i][5] = "bucket"
  /\ Cardinality(Pg(g.kpages, 2)) = Len(g.kpages)
  /\ \A i \in 1..Len(g.kpages) :
        (i = 1 \/ g.kpages[i][1] # g.kpages[IF i = 1 THEN 1 ELSE i - 1][1]) => g.kpages[i][2] = BucketPage(g.spares, g.kpages[i][1])

DataPagesOk(g) ==
  /\ \A i \in 1..Len(g.dpages) : g.dpages[i][2] = g.dpages[i][1] /\ g.dpages[i][3] = 1 /\ g.dpages[i][4] = "data"
  \* byte ranges of different values never overlap
  /\ \A i \in 1..(Len(g.exts) - 1) :
        \/ g.exts[i][1] < g.exts[i + 1][1]
        \/ g.exts[i][1] = g.exts[i + 1][1] /\ g.exts[i][3] <= g.exts[i + 1][2]
  \* the headers on data pages are exactly the headers of values
  /\ g.walk = Len(g.ents)

EntriesOk(g) ==
  /\ g.vbad = 0
  /\ \A i \in 1..Len(g.ents) :
       LET e == g.ents[i] IN
         /\ e[1] = BucketOf(e[2], g.maxb, g.high, g.low)      \* the bucket its hash selects
         /\ e[5] = e[7] /\ e[6] = e[8]                        \* the value points back
         /\ e[9] = 1                                          \* lengths, state, checksum
         /\ e[3] > 0 /\ e[4] > 0                              \* bytes somebody stored
  /\ Cardinality(Pg(g.ents, 3)) = Len(g.ents)                 \* each key once
  /\ g.nkeys = Len(g.ents)

\* no page serves two purposes
PurposesOk(g) ==
  LET K == Pg(g.kpages, 2)
      D == Pg(g.dpages, 1)
      B == {BucketPage(g.spares, b) : b \in 0..g.maxb}
      F == SetOf(g.fmaps) \cup SetOf(g.fpages)
      H == 0..(g.hdrpages - 1)
      U == UnusedPages(g.spares, g.maxb, g.high)
      M == IF g.moved = 0 THEN {} ELSE FirstUnused(g.spares, g.maxb)..(FirstUnused(g.spares, g.maxb) + g.moved - 1)
      top == Top(g.spares, g.ovfl)
  IN /\ K \cap D = {} /\ K \cap H = {} /\ D \cap H = {}
     /\ Cardinality(B) = g.maxb + 1 /\ B \cap D = {} /\ B \cap H = {}
     /\ g.flok = 1
     /\ Cardinality(F) = Len(g.fmaps) + Len(g.fpages)
     /\ F \cap K = {} /\ F \cap D = {} /\ F \cap H = {} /\ F \cap B = {}
     /\ \A p \in K \cup D \cup F : p < top
     /\ M \subseteq U
     /\ (K \cup D \cup F) \cap U \subseteq M
     /\ \A p \in K \cup D \cup F : p < top - g.moved

WellFormed(g) ==
  /\ HeaderOk(g) /\ g.crc = 1
  /\ KeyPagesOk(g) /\ EntriesOk(g) /\ DataPagesOk(g) /\ PurposesOk(g)

\* the map an image represents
Content(g, keys, none) ==
  [k \in keys |-> IF \E i \in 1..Len(g.ents) : g.ents[i][3] = k
                  THEN g.ents[CHOOSE i \in 1..Len(g.ents) : g.ents[i][3] = k][4] ELSE none]

\* A table whose keys spread evenly keeps its chains short
Grown(g) == Len(g.kpages) <= 6 * (g.maxb + 1) + 6
=============================================================================

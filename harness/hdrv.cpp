// Calls the checksum, hash, order and byte-order functions with given inputs
// and prints what they return.  One command per line on stdin.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
#include <fcntl.h>
extern "C" {
#include "ffdb_db.h"
#include "ffdb_hash_func.h"
}
#include "FileDB.h"

typedef std::vector<unsigned char> bytes;
typedef unsigned int (*hashfn)(const void*, unsigned int);

static bytes unhex(const std::string& s)
{
  bytes b;
  if (s == "-") return b;
  for (size_t i = 0; i + 1 < s.size(); i += 2)
    b.push_back((unsigned char)strtoul(s.substr(i, 2).c_str(), 0, 16));
  return b;
}

// a copy of b in a heap block of exactly its size, at a chosen alignment
struct at {
  unsigned char *blk, *p;
  at(const bytes& b, int al) { blk = (unsigned char*)malloc(al + b.size() + (al + b.size() == 0)); p = blk + al; if (!b.empty()) memcpy(p, &b[0], b.size()); }
  ~at() { free(blk); }
};

static void out(unsigned int v) { printf(" %u", v); }

static void strings(const std::vector<bytes>& segs)
{
  bytes all;
  for (auto& s : segs) all.insert(all.end(), s.begin(), s.end());
  printf("crc");
  for (int al = 0; al < 8; al++) {
    at a(all, al);
    out(__ffdb_crc32_checksum(0, a.p, (long)all.size()));
    out(FILEDB::crc32(0, (const char*)a.p, (unsigned int)all.size()));
    unsigned int c = 0, d = 0, k = al;
    for (auto& s : segs) {
      at x(s, k++ & 7);
      c = __ffdb_crc32_checksum(c, x.p, (long)s.size());
      d = FILEDB::crc32(d, (const char*)x.p, (unsigned int)s.size());
    }
    out(c); out(d);
  }
  hashfn fs[] = { __ham_func5, __ham_func2, __ham_func3, __ham_func4 };
  for (int n = 0; n < 4; n++) {
    printf(" h");
    for (int al = 0; al < 8; al++) {
      at a(all, al);
      out(fs[n](a.p, (unsigned int)all.size()));
      if (n == 0) out(__ffdb_default_hash(a.p, (unsigned int)all.size()));
    }
  }
  printf("\n");
}

static int sg(int x) { return x < 0 ? -1 : x > 0; }

static int cmp(const bytes& a, const bytes& b, int al)
{
  at x(a, al), y(b, (al * 3) & 7);
  FFDB_DBT p, q;
  memset(&p, 0, sizeof p); memset(&q, 0, sizeof q);
  p.data = x.p; p.size = a.size(); q.data = y.p; q.size = b.size();
  int r = sg(__ham_defcmp(&p, &q)), s = sg(__ffdb_default_cmp(&p, &q));
  return r == s ? r : 7;
}

static void order(const bytes& a, const bytes& b)
{
  printf("order");
  for (int al = 0; al < 8; al += 3)
    printf(" %d %d %d %d", cmp(a, b, al), cmp(b, a, al), cmp(a, a, al), cmp(b, b, al));
  printf("\n");
}

template <class T> static void net(T v, T (*hton)(T), T (*ntoh)(T))
{
  // v most significant byte first, memory of hton(v), and ntoh(hton(v)) most significant byte first
  T m = hton(v), k = ntoh(m);
  unsigned char* p = (unsigned char*)&m;
  printf("net");
  for (int i = sizeof(T) - 1; i >= 0; i--) printf(" %u", (unsigned)((v >> (8 * i)) & 0xff));
  for (unsigned i = 0; i < sizeof(T); i++) printf(" %u", p[i]);
  for (int i = sizeof(T) - 1; i >= 0; i--) printf(" %u", (unsigned)((k >> (8 * i)) & 0xff));
  printf("\n");
}

static int database(const char* path, unsigned bs, int n, unsigned seed)
{
  FFDB_HASHINFO info;
  memset(&info, 0, sizeof info);
  info.bsize = bs; info.nbuckets = 1; info.cachesize = 65536; info.userinfolen = 900; info.numconfigs = 5; info.rearrangepages = seed & 1;
  FFDB_DB* db = ffdb_dbopen(path, O_RDWR | O_CREAT | O_TRUNC, 0644, &info);
  if (!db) return 1;
  srandom(seed);
  bytes u(800);
  for (auto& c : u) c = random();
  if (ffdb_set_user_info(db, &u[0], u.size())) return 2;
  for (int i = 0; i < n; i++) {
    bytes k(4 + random() % 40), d(random() % 4 ? random() % 200 : random() % 1500);
    for (auto& c : k) c = random();
    for (auto& c : d) c = random();
    memcpy(&k[0], &i, 4);
    at x(k, 0), y(d, 0);
    FFDB_DBT p, q;
    memset(&p, 0, sizeof p); memset(&q, 0, sizeof q);
    p.data = x.p; p.size = k.size(); q.data = y.p; q.size = d.size();
    if (db->put(db, &p, &q, 0)) return 3;
  }
  return db->close(db) ? 4 : 0;
}

int main()
{
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream is(line);
    std::string c, w;
    is >> c;
    if (c == "S") {
      std::vector<bytes> segs;
      while (is >> w) segs.push_back(unhex(w));
      strings(segs);
    } else if (c == "O") {
      std::string x, y; is >> x >> y; order(unhex(x), unhex(y));
    } else if (c == "L") {
      unsigned n; is >> n; printf("log2 %u\n", __ffdb_log2(n));
    } else if (c == "N") {
      int k; unsigned long v; is >> k >> v;
      if (k == 2) net<unsigned short>(v, FILEDB::hton_short, FILEDB::ntoh_short);
      else if (k == 4) net<unsigned int>(v, FILEDB::hton_int, FILEDB::ntoh_int);
      else net<unsigned long>(v, FILEDB::hton_long, FILEDB::ntoh_long);
    } else if (c == "D") {
      std::string p; unsigned bs, n, seed; is >> p >> bs >> n >> seed;
      printf("db %d\n", database(p.c_str(), bs, n, seed));
    } else if (c == "I") {
      // the tables may be set up any number of times
      __ffdb_crc32_init(); FILEDB::crc32_init();
      printf("ok\n");
    }
    fflush(stdout);
  }
  return 0;
}

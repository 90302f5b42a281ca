// sdrv.cpp - executes a text script of operations against the C++ layer
// (stores, ensembles, unions, merge) and prints one observation per line.
// Counterpart of drv.c; the traces are checked against spec/Store.tla.
#include <cstdio>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <signal.h>
#include <array>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>
#include "ConfDataStoreDB.h"
#include "ConfDataStoreDBSimple.h"
#include "ConfDataStoreMultipleDB.h"
#include "AllConfStoreDB.h"
#include "AllConfStoreMultipleDB.h"
#include "ConfDataDBMerger.h"
#include "DBString.h"
#include "VFloatData.h"
#include "HashFunc.h"
using namespace FILEDB;
using std::string;
using std::vector;

// live allocations: everything the library and this file allocate themselves
static long live_allocs, live_bytes, peak_bytes, bytes0;      // bytes0: before the first of the store objects was made
#include <malloc.h>
#ifdef COUNT_ALLOCS
#include <new>
extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
static void count(void* p, int d)
{
  if (!p) return;
  __sync_fetch_and_add(&live_allocs, d);
  live_bytes += d * (long)malloc_usable_size(p);
  if (live_bytes > peak_bytes) peak_bytes = live_bytes;
}
void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); count(p, 1); return p; }
void* __wrap_calloc(size_t a, size_t b) { void* p = __real_calloc(a, b); count(p, 1); return p; }
void* __wrap_realloc(void* q, size_t n)
{
  long old = q ? (long)malloc_usable_size(q) : 0;
  void* p = __real_realloc(q, n);
  if (p) { if (!q) live_allocs++; live_bytes += (long)malloc_usable_size(p) - old; if (live_bytes > peak_bytes) peak_bytes = live_bytes; }
  return p;
}
void __wrap_free(void* p) { count(p, -1); __real_free(p); }
char* __wrap_strdup(const char* s) { char* p = (char*)__wrap_malloc(strlen(s) + 1); if (p) strcpy(p, s); return p; }
}
void* operator new(size_t n) { void* p = __wrap_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }
#endif
static int open_fds()
{
  int n = 0;
  for (int i = 0; i < 200; i++) if (fcntl(i, F_GETFD) >= 0) n++;
  return n;
}

static void fatal(const string& m) { fprintf(stderr, "sdrv: %s\n", m.c_str()); _exit(90); }

// ---------------------------------------------------------------- bytes
static uint64_t mix(uint64_t x)
{
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}
static string fillb(long len, uint64_t seed)
{
  string b(len, '\0');
  uint64_t s = mix(seed), w = 0;
  for (long i = 0; i < len; i++) {
    if ((i & 7) == 0) { s = mix(s); w = s; }
    b[i] = (char)(w >> ((i & 7) * 8));
  }
  return b;
}

static size_t fixlen = 8;
// a key made of a number and text, with its own hash and comparison
struct IKey : public DBKey {
  int n; string s;
  IKey() : n(0) {}
  unsigned short serialID() const { return 777; }
  int hasHashFunc() const { return 1; }
  int hasCompareFunc() const { return 1; }
  void writeObject(string& o) const
  {
    unsigned int x = hton_int((unsigned int)n);
    o.assign((char*)&x, 4); o += s;
  }
  void readObject(const string& i)
  {
    if (i.size() < 4) throw SerializeException("IKey", "short");
    unsigned int x; memcpy(&x, i.data(), 4); n = (int)ntoh_int(x); s = i.substr(4);
  }
  int operator==(const IKey& k) const { return n == k.n && s == k.s; }
  static unsigned int hash(const void* b, unsigned int len) { return JSHash((char*)b, len); }
  static int compare(const FFDB_DBT* a, const FFDB_DBT* b)
  {
    size_t m = a->size < b->size ? a->size : b->size;
    int r = memcmp(a->data, b->data, m);
    if (r) return r;
    return a->size < b->size ? -1 : a->size > b->size;
  }
};
// data that serialize to themselves; the default object is fixlen zero bytes
struct Fix : public DBData {
  string s;
  Fix() : s(fixlen, '\0') {}
  unsigned short serialID() const { return 778; }
  void writeObject(string& o) const { o = s; }
  void readObject(const string& i) { s = i; }
};

// ---------------------------------------------------------------- tables
struct Ent { char mode; long len; };
static vector<Ent> kt, vt;
// payload of an object -> id, serialized form -> id, for each class
static std::unordered_map<string, int> kp, ksS, ksI, vp, vsU, vsF, vsV;
static string kpay(int id)
{
  Ent e = kt[id - 1];
  long n = e.len - 4;
  if (n <= 0) return "";
  string b;
  switch (e.mode) {
  case 'p': b.assign(n, 'P'); for (long i = 0; i < 4 && i < n; i++) b[n - 1 - i] = (char)(id >> (8 * i)); break;
  case 'z': b.assign(n, '\0'); break;
  case 'b': b.assign(n, '\0'); for (long i = 0; i < 4 && i < n; i++) b[i] = (char)(id >> (8 * i)); break;
  default: b = fillb(n, 0x1000000ULL + id);
  }
  return b;
}
static bool kraw(int id) { return kt[id - 1].mode == 'x'; }
static string krawb(int id) { string b = fillb(kt[id - 1].len, 0x5000000ULL + id); if (!b.empty()) b[0] = 0x22; return b; }
static StringKey mkS(int id) { return StringKey(kpay(id)); }
static IKey mkI(int id) { IKey k; k.n = id * 65537; k.s = kpay(id); return k; }
static string kbin(int id, char cod)
{
  if (kraw(id)) return krawb(id);
  string o;
  if (cod == 's') mkS(id).writeObject(o); else mkI(id).writeObject(o);
  return o;
}
static int ask(const std::unordered_map<string, int>& m, const string& s) { auto i = m.find(s); return i == m.end() ? -2 : i->second; }
static int kidS(StringKey k) { return ask(kp, (string)k); }
static int kidI(const IKey& k) { int i = ask(kp, k.s); return (i > 0 && k.n == i * 65537) ? i : -2; }
static int kidB(const string& b, char cod) { return ask(cod == 's' ? ksS : ksI, b); }

static string vpay(int id, long n)
{
  if (n <= 0) return "";
  if (vt[id - 1].mode == '0') return string(n, '\0');
  if (vt[id - 1].mode == 'z') { string b = fillb(n, 0x9000000ULL + id); for (long i = 0; i < n; i += 3) b[i] = 0; return b; }
  return fillb(n, 0x2000000ULL + id);
}
static bool vraw(int id) { return vt[id - 1].mode == 'x'; }
static string vrawb(int id) { string b = fillb(vt[id - 1].len, 0x7000000ULL + id); if (!b.empty()) b[0] = 0x33; return b; }
// value ids denote the serialized length; a UserData has 4 bytes in front, a VFloatData 8
static UserData mkU(int id) { string p = vpay(id, vt[id - 1].len - 4); return UserData(p.data(), (long)p.size()); }
static Fix mkF(int id) { Fix f; f.s = vraw(id) ? vrawb(id) : vpay(id, vt[id - 1].len); return f; }
// element j of the vector a value id denotes; the first of them are the odd ones: minus zero, infinities, not numbers, tiny ones
static float vfloat(int id, int j = 0)
{
  static const float special[] = {0.f, 1.5f, -2.25f, 1e30f, 3.0e-39f, 16777217.0f, 128.0f, -1.0f, 0.1f, 255.0f, 1e-3f};
  static const uint32_t odd[] = {0x80000000u, 0x7f800000u, 0xff800000u, 0x7fc12345u, 0xffc00001u, 0x00000001u, 0x807fffffu};
  uint32_t b;
  int n = id + 5 * j;
  if (n % 4 == 1) b = odd[(n / 4 + 6) % 7];
  else if (n % 3) return special[n % 11];
  else { b = (uint32_t)mix(n); b &= 0xbfffffff; }
  float f; memcpy(&f, &b, 4); return f;
}
static bool vsame(int id) { return id % 5 == 2; }        // all elements alike
static VFloatData mkV(int id)
{
  VFloatData d((unsigned)((vt[id - 1].len - 8) / 4), vfloat(id));
  vector<float>& f = const_cast<vector<float>&>((const vector<float>&)d);
  for (size_t j = 0; j < f.size() && !vsame(id); j++) f[j] = vfloat(id, j);
  return d;
}
static int vidV(VFloatData v)
{
  for (size_t i = 1; i <= vt.size(); i++) {
    if (vt[i - 1].len < 8 || (vt[i - 1].len - 8) / 4 != v.numberOfElements()) continue;
    const vector<float>& f = v;
    bool ok = true;
    for (size_t j = 0; j < f.size() && ok; j++) { float w = vfloat(i, vsame(i) ? 0 : j); ok = memcmp(&f[j], &w, 4) == 0; }
    if (ok) return i;
  }
  return -2;
}

// ---------------------------------------------------------------- class traits
template <class K> struct KT;
template <> struct KT<StringKey> { static const char cod = 's'; static StringKey mk(int i) { return mkS(i); } static int id(const StringKey& k) { return kidS(k); } };
template <> struct KT<IKey> { static const char cod = 'i'; static IKey mk(int i) { return mkI(i); } static int id(const IKey& k) { return kidI(k); } };
template <class D> struct DT;
template <> struct DT<UserData> {
  static UserData junk() { return UserData("left over"); }
  static UserData mk(int i) { return mkU(i); }
  static int id(UserData d) { return ask(vp, (string)d); }
  static string bin(int i) { if (vraw(i)) return vrawb(i); string o; mkU(i).writeObject(o); return o; }
  static int idb(const string& b) { return ask(vsU, b); }
};
template <> struct DT<Fix> {
  static Fix junk() { Fix f; f.s = "left over"; return f; }
  static Fix mk(int i) { return mkF(i); }
  static int id(const Fix& d) { return ask(vsF, d.s); }
  static string bin(int i) { return mkF(i).s; }
  static int idb(const string& b) { return ask(vsF, b); }
};
template <> struct DT<VFloatData> {
  static VFloatData junk() { return VFloatData(7, 1.25f); }
  static VFloatData mk(int i) { return mkV(i); }
  static int id(const VFloatData& d) { return vidV(d); }
  static string bin(int i) { string o; mkV(i).writeObject(o); return o; }
  static int idb(const string& b) { return ask(vsV, b); }
};

// ---------------------------------------------------------------- stores
typedef std::ostringstream O;
struct Opt { unsigned bs, nb, cache; int rearr; long umax; unsigned ncfg; };
static string fname(int f) { return "f" + std::to_string(f); }
static int fnum(const string& s) { return s.empty() ? 0 : (s[0] == 'f' ? atoi(s.c_str() + 1) : -2); }
static int oflags(const string& m) { return m == "r" ? O_RDONLY : m == "w" ? O_RDWR : m == "c" ? O_RDWR | O_CREAT : O_RDWR | O_CREAT | O_TRUNC; }
// names of configurations
static string cname(int t)
{
  if (t == 0) return "";
  if (t < 100) return fname(t);
  string s = "name" + std::to_string(t) + "-";
  s += string((t % 5) * 37, 'n');
  if (t % 7 == 3) s += string(150, 'x');
  return s;
}
static std::map<string, int> cnames;
static int cnid(const string& s) { auto i = cnames.find(s); return i == cnames.end() ? -2 : i->second; }
static int cmkname(int t) { cnames[cname(t).substr(0, 127)] = t; return t; }

struct St {
  virtual ~St() {}
  virtual void opts(const Opt&) { fatal("opts"); }
  virtual St* copy() { fatal("copy"); return 0; }
  virtual int open(int, const string&) { fatal("open"); return 0; }
  virtual int close() { fatal("close"); return 0; }
  virtual void flush() { fatal("flush"); }
  virtual string name() { fatal("name"); return ""; }
  virtual int ins(char, int, int) { fatal("ins"); return 0; }
  virtual int eins(char, int, const vector<int>&) { fatal("eins"); return 0; }
  virtual int upd(int, int, int, int) { fatal("upd"); return 0; }
  virtual void done() { fatal("done"); }
  virtual int get(char, int, vector<int>&) { fatal("get"); return 0; }
  virtual int exist(int) { fatal("exist"); return 0; }
  virtual void keys(char, vector<int>&) { fatal("keys"); }
  virtual void pairs(char, vector<int>&, vector<vector<int>>&) { fatal("pairs"); }
  virtual void some(vector<int>&, vector<vector<int>>&) { fatal("some"); }
  virtual int size() { fatal("size"); return 0; }
  virtual int uset(const string&) { fatal("uset"); return 0; }
  virtual int uget(string&) { fatal("uget"); return 0; }
  virtual void caps(unsigned&, unsigned&) { fatal("caps"); }
  virtual int cset(int, int, int, int, int) { fatal("cset"); return 0; }
  virtual int cget(int, O&) { fatal("cget"); return 0; }
  virtual int call(O&) { fatal("call"); return 0; }
  virtual void merge(const vector<std::array<int, 3>>&, unsigned, int) { fatal("merge"); }
  virtual int there(const vector<string>&) { fatal("there"); return 0; }
};

template <class S> static void setopts(S& s, const Opt& o)
{
  s.setPageSize(o.bs);
  s.setNumberBuckets(o.nb);
  if (o.cache == 70000) s.setCacheSizeMB(1); else if (o.cache) s.setCacheSize(o.cache);
  if (o.rearr) s.enablePageMove(); else s.disablePageMove();
  if (o.umax >= 0) s.setMaxUserInfoLen((unsigned)o.umax);
  if (o.ncfg) s.setMaxNumberConfigs(o.ncfg);
}

template <class K, class D> struct Conf : St {
  ConfDataStoreDB<K, D>* s;
  Conf() : s(new ConfDataStoreDB<K, D>()) {}
  Conf(const Conf& o) : s(new ConfDataStoreDB<K, D>(*o.s)) {}
  ~Conf() { delete s; }
  void opts(const Opt& o) { setopts(*s, o); }
  St* copy() { return new Conf(*this); }
  int open(int f, const string& m) { return s->open(fname(f), oflags(m), 0640); }
  int there(const vector<string>& n) { return s->fileExists(n[0]) ? 1 : 0; }
  int close() { return s->close(); }
  void flush() { s->flush(); }
  string name() { return s->storageName(); }
  int ins(char how, int k, int v)
  {
    if (how == 't') return s->insert(KT<K>::mk(k), DT<D>::mk(v));
    if (how == 's') return s->insertWithStringKey(kbin(k, KT<K>::cod), DT<D>::mk(v));
    return s->insertBinary(kbin(k, KT<K>::cod), DT<D>::bin(v));
  }
  int get(char how, int k, vector<int>& vs)
  {
    int rc;
    if (how == 't') { D d = DT<D>::junk(); rc = s->get(KT<K>::mk(k), d); if (rc == 0) vs.push_back(DT<D>::id(d)); }
    else { string d = "left over"; rc = s->getBinary(kbin(k, KT<K>::cod), d); if (rc == 0) vs.push_back(DT<D>::idb(d)); }
    return rc;
  }
  int exist(int k) { return s->exist(KT<K>::mk(k)) ? 1 : 0; }
  void keys(char how, vector<int>& ks)
  {
    if (how == 't') { vector<K> x; s->keys(x); for (auto& k : x) ks.push_back(KT<K>::id(k)); }
    else { vector<string> x; s->binaryKeys(x); for (auto& k : x) ks.push_back(kidB(k, KT<K>::cod)); }
  }
  void pairs(char how, vector<int>& ks, vector<vector<int>>& vs)
  {
    if (how == 'b') {
      vector<string> x, y; s->binaryKeysAndData(x, y);
      for (auto& k : x) ks.push_back(kidB(k, KT<K>::cod));
      for (auto& v : y) vs.push_back(vector<int>(1, DT<D>::idb(v)));
    } else {
      vector<D> y;
      if (how == 't') { vector<K> x; s->keysAndData(x, y); for (auto& k : x) ks.push_back(KT<K>::id(k)); }
      else { vector<string> x; s->stringKeysAndData(x, y); for (auto& k : x) ks.push_back(kidB(k, KT<K>::cod)); }
      for (auto& v : y) vs.push_back(vector<int>(1, DT<D>::id(v)));
    }
  }
  void some(vector<int>& ks, vector<vector<int>>& vs)
  {
    vector<K> x; vector<D> y; s->someKeyAndData(x, y);
    for (auto& k : x) ks.push_back(KT<K>::id(k));
    for (auto& v : y) vs.push_back(vector<int>(1, DT<D>::id(v)));
  }
  int uset(const string& v) { return s->insertUserdata(v); }
  int uget(string& v) { return s->getUserdata(v); }
  void caps(unsigned& a, unsigned& b) { a = s->getMaxUserInfoLen(); b = s->getMaxNumberConfigs(); }
};

struct Simple : St {
  ConfDataStoreDBSimple* s;
  Simple() : s(new ConfDataStoreDBSimple()) {}
  Simple(const Simple& o) : s(new ConfDataStoreDBSimple(*o.s)) {}
  ~Simple() { delete s; }
  void opts(const Opt& o) { setopts(*s, o); }
  St* copy() { return new Simple(*this); }
  int open(int f, const string& m) { return s->open(fname(f), oflags(m), 0640); }
  int there(const vector<string>& n) { return s->fileExists(n[0]) ? 1 : 0; }
  int close() { return s->close(); }
  void flush() { s->flush(); }
  int ins(char, int k, int v) { return s->insert(mkS(k), mkU(v)); }
  int get(char, int k, vector<int>& vs) { UserData d = DT<UserData>::junk(); int rc = s->get(mkS(k), d); if (rc == 0) vs.push_back(DT<UserData>::id(d)); return rc; }
  int exist(int k) { return s->exist(mkS(k)) ? 1 : 0; }
  void keys(char, vector<int>& ks) { vector<StringKey> x; s->keys<StringKey, UserData>(x); for (auto& k : x) ks.push_back(kidS(k)); }
  void pairs(char, vector<int>& ks, vector<vector<int>>& vs)
  {
    vector<StringKey> x; vector<UserData> y; s->keysAndData(x, y);
    for (auto& k : x) ks.push_back(kidS(k));
    for (auto& v : y) vs.push_back(vector<int>(1, DT<UserData>::id(v)));
  }
  int uset(const string& v) { return s->insertUserdata(v); }
  int uget(string& v) { return s->getUserdata(v); }
  void caps(unsigned& a, unsigned& b) { a = s->getMaxUserInfoLen(); b = s->getMaxNumberConfigs(); }
};

static long started;
template <class K, class D> struct Ens : St {
  AllConfStoreDB<K, D>* s;
  Ens(const vector<int>& c, const vector<string>& n, int ctor)
  {
    if (ctor == 0) s = new AllConfStoreDB<K, D>();
    else if (ctor == 1) s = new AllConfStoreDB<K, D>(c);
    else s = new AllConfStoreDB<K, D>(c, n);
  }
  Ens(const Ens& o) : s(new AllConfStoreDB<K, D>(*o.s)) {}
  ~Ens() { delete s; }
  void opts(const Opt& o) { Opt p = o; p.ncfg = 0; setopts(*s, p); }
  St* copy() { return new Ens(*this); }
  int open(int f, const string& m) { return s->open(fname(f), oflags(m), 0640); }
  int there(const vector<string>& n) { return s->fileExists(n[0]) ? 1 : 0; }
  int close() { return s->close(); }
  void flush() { s->flush(); }
  string name() { return s->storageName(); }
  int eins(char how, int k, const vector<int>& vs)
  {
    if (how == 'b') { vector<string> x; for (int v : vs) x.push_back(DT<D>::bin(v)); return s->insertBinaryData(kbin(k, KT<K>::cod), x); }
    vector<D> x; for (int v : vs) x.push_back(DT<D>::mk(v));
    if (how == 's') return s->insertWithStringKey(kbin(k, KT<K>::cod), x);
    return s->insert(KT<K>::mk(k), x);
  }
  int upd(int k, int v, int cf, int ix) { return s->update(KT<K>::mk(k), DT<D>::mk(v), cf, ix); }
  void done() { s->updateDone(); }
  int get(char how, int k, vector<int>& vs)
  {
    int rc;
    if (how == 'b') { vector<string> x; rc = s->getBinaryData(kbin(k, KT<K>::cod), x); for (auto& v : x) vs.push_back(DT<D>::idb(v)); return rc; }
    vector<D> x;
    rc = how == 's' ? s->getFromStringKey(kbin(k, KT<K>::cod), x) : s->get(KT<K>::mk(k), x);
    for (auto& v : x) vs.push_back(DT<D>::id(v));
    return rc;
  }
  int exist(int k) { return s->exist(KT<K>::mk(k)) ? 1 : 0; }
  void keys(char how, vector<int>& ks)
  {
    if (how == 't') { vector<K> x; s->keys(x); for (auto& k : x) ks.push_back(KT<K>::id(k)); }
    else if (how == 'i') { for (auto i = s->begin(); i != s->end(); ++i) ks.push_back(KT<K>::id(*i)); }
    else if (how == 'j') {       // copies and assignments of iterators share the position
      auto i = s->begin(); auto e = s->end();
      while (i != e) { ks.push_back(KT<K>::id(*i)); auto j = i; j++; i = j; }
    }
    else { vector<string> x; s->binaryKeys(x); for (auto& k : x) ks.push_back(kidB(k, KT<K>::cod)); }
  }
  void pairs(char how, vector<int>& ks, vector<vector<int>>& vs)
  {
    vector<vector<D>> y;
    if (how == 't') { vector<K> x; s->keysAndData(x, y); for (auto& k : x) ks.push_back(KT<K>::id(k)); }
    else { vector<string> x; s->stringKeysAndData(x, y); for (auto& k : x) ks.push_back(kidB(k, KT<K>::cod)); }
    for (auto& v : y) { vector<int> z; for (auto& d : v) z.push_back(DT<D>::id(d)); vs.push_back(z); }
  }
  int size() { return s->size(); }
  int uset(const string& v) { return s->insertUserdata(v); }
  int uget(string& v) { return s->getUserdata(v); }
  void caps(unsigned& a, unsigned& b) { a = s->getMaxUserInfoLen(); b = s->getMaxNumberConfigs(); }
  int cset(int ix, int cf, int nm, int in, int tag)
  {
    ConfigInfo c; c.index(ix); c.configNumber(cf); c.urlname(cname(nm)); c.insert(in); c.type(tag * 3); c.modifiedTime(tag * 1001);
    return s->setConfigInfo(c);
  }
  static void show(const ConfigInfo& c, O& o)
  {
    int tag = -2;
    if (c.type() == 3 * (c.modifiedTime() / 1001) && c.modifiedTime() % 1001 == 0) tag = c.modifiedTime() / 1001;
    else if (c.type() == 0 && c.modifiedTime() >= started - 2 && c.modifiedTime() <= time(0) + 2) tag = -1;
    o << " " << c.index() << " " << c.configNumber() << " " << cnid(c.urlname()) << " " << c.inserted() << " " << tag;
  }
  int cget(int cf, O& o) { ConfigInfo c; int rc = s->getConfigInfo(cf, c); if (rc == 0) show(c, o); return rc; }
  int call(O& o) { vector<ConfigInfo> c; int rc = s->getAllConfigInfo(c); for (auto& x : c) show(x, o); return rc; }
  void merge(const vector<std::array<int, 3>>& e, unsigned budget, int ctor)
  {
    ConfDataDBMerger<K, D>* m;
    if (ctor == 1) {
      vector<ConfigInfo> c;
      for (auto& x : e) { ConfigInfo i; i.index(x[0]); i.configNumber(x[1]); i.type(0); i.urlname(x[2] ? fname(x[2]) : ""); c.push_back(i); }
      m = new ConfDataDBMerger<K, D>(c, budget);
    } else {
      vector<int> c; vector<string> n;
      for (auto& x : e) { c.push_back(x[1]); n.push_back(x[2] ? fname(x[2]) : "N/A"); }
      m = new ConfDataDBMerger<K, D>(c, n, budget);
    }
    m->setDatabaseHandle(s);
    m->merge();
    delete m;
  }
};

template <class K, class D> struct MConf : St {
  ConfDataStoreMultipleDB<K, D> s;
  int openall(const vector<string>& n) { return s.open(n); }
  int there(const vector<string>& n) { return s.fileExists(n) ? 1 : 0; }
  int close() { return s.close(); }
  int get(char how, int k, vector<int>& vs)
  {
    int rc;
    if (how == 't') { D d; rc = s.get(KT<K>::mk(k), d); if (rc == 0) vs.push_back(DT<D>::id(d)); }
    else { string d = "left over"; rc = s.getBinary(kbin(k, KT<K>::cod), d); if (rc == 0) vs.push_back(DT<D>::idb(d)); }
    return rc;
  }
  int exist(int k) { return s.exist(KT<K>::mk(k)) ? 1 : 0; }
  void keys(char, vector<int>& ks) { vector<K> x; s.keys(x); for (auto& k : x) ks.push_back(KT<K>::id(k)); }
  int uget(string& v) { return s.getUserdata(v); }
  void caps(unsigned& a, unsigned& b) { a = 0; b = s.getMaxNumberConfigs(); }
};
template <class K, class D> struct MEns : St {
  AllConfStoreMultipleDB<K, D> s;
  int openall(const vector<string>& n) { return s.open(n); }
  int there(const vector<string>& n) { return s.fileExists(n) ? 1 : 0; }
  int close() { return s.close(); }
  int get(char, int k, vector<int>& vs) { vector<D> x; int rc = s.get(KT<K>::mk(k), x); if (rc == 0) for (auto& v : x) vs.push_back(DT<D>::id(v)); return rc; }
  int exist(int k) { return s.exist(KT<K>::mk(k)) ? 1 : 0; }
  int uget(string& v) { return s.getUserdata(v); }
  void caps(unsigned& a, unsigned& b) { a = 0; b = s.getMaxNumberConfigs(); }
};

// ---------------------------------------------------------------- main
static St* slot[64];
static FILE* out;
static int lineno;
static void say(const string& s) { fprintf(out, "%d %s\n", lineno, s.c_str()); fflush(out); }
static string list(const vector<int>& v) { O o; for (int x : v) o << x << " "; return o.str(); }
static unsigned long long fdigest(const string& f)
{
  std::ifstream i(f, std::ios::binary);
  unsigned long long h = 1469598103934665603ULL; char c;
  std::string b((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
  for (char x : b) { h ^= (unsigned char)x; h *= 1099511628211ULL; }
  (void)c;
  return h ^ b.size();
}

// equality of two objects: as built, after a trip through their stored form, after an assignment
static void put_string(StringKey& x, const string& p) { x = p; }
static void put_string(UserData& x, const string& p) { x = p; }
static void put_string(VFloatData&, const string&) {}
template <class T> static std::pair<int, int> eqs(char how, T a, T b, const string& pb)
{
  if (how == 's') { string o; b.writeObject(o); T c; c.readObject(o); return std::make_pair(a == c, a != c); }
  if (how == 'a') { T c(a); c = b; return std::make_pair(a == c, a != c); }
  if (how == 'p' && !pb.empty()) { T c(a); put_string(c, pb); return std::make_pair(a == c, a != c); }
  return std::make_pair(a == b, a != b);
}

int main(int argc, char** argv)
{
  if (argc < 3) return 90;
  struct rlimit rl = {1u << 30, 1u << 30}; setrlimit(RLIMIT_FSIZE, &rl); signal(SIGXFSZ, SIG_IGN);
  std::ifstream in(argv[1]);
  out = fopen(argv[2], "w");
  started = time(0);
  cmkname(0);
  string line;
  while (std::getline(in, line)) {
    lineno++;
    std::istringstream w(line);
    string op; w >> op;
    int s = 0, k = 0, v = 0;
    try {
      if (op == "KEY") { int id; Ent e; w >> id >> e.mode >> e.len; kt.push_back(e);
        if (e.mode == 'x') { string b = krawb(id); ksS.emplace(b, id); if (e.len < 4) ksI.emplace(b, id); }
        else { kp.emplace(kpay(id), id); ksS.emplace(kbin(id, 's'), id); ksI.emplace(kbin(id, 'i'), id); }
      }
      else if (op == "FIXLEN") { w >> fixlen; }
      else if (op == "VAL") { int id; Ent e; w >> id >> e.mode >> e.len; vt.push_back(e);
        if (e.mode != 'x') { vp.emplace(vpay(id, e.len - 4), id); vsU.emplace(DT<UserData>::bin(id), id); }
        else vsU.emplace(vrawb(id), id);
        vsF.emplace(mkF(id).s, id);
        if (e.len >= 8) vsV.emplace(DT<VFloatData>::bin(id), id);
      }
      else if (op == "NEW") {
        { bool any = false; for (St* x : slot) any = any || x; if (!any) bytes0 = live_bytes; }
        char kind; Opt o; w >> s >> kind >> o.bs >> o.nb >> o.cache >> o.rearr >> o.umax >> o.ncfg;
        int ctor = 0, n = 0; vector<int> c; vector<string> nm;
        if (kind == 'E' || kind == 'F') { w >> ctor >> n; for (int i = 0; i < n; i++) { int a, b; w >> a >> b; c.push_back(a); nm.push_back(b ? cname(b) : (i % 2 ? "N/A" : "")); cmkname(b); } }
        switch (kind) {
        case 'S': slot[s] = new Conf<StringKey, UserData>(); break;
        case 'C': slot[s] = new Conf<StringKey, Fix>(); break;
        case 'I': slot[s] = new Conf<IKey, Fix>(); break;
        case 'V': slot[s] = new Conf<StringKey, VFloatData>(); break;
        case 'P': slot[s] = new Simple(); break;
        case 'E': slot[s] = new Ens<StringKey, Fix>(c, nm, ctor); break;
        case 'F': slot[s] = new Ens<IKey, Fix>(c, nm, ctor); break;
        default: fatal("kind");
        }
        slot[s]->opts(o);
        say("");
      }
      else if (op == "UNION") {
        char kind; int n; w >> s >> kind >> n; vector<string> f;
        for (int i = 0; i < n; i++) { int x; w >> x; f.push_back(fname(x)); }
        int rc = 0;
        if (kind == 'S') { auto* x = new MConf<StringKey, UserData>(); rc = x->openall(f); slot[s] = x; }
        else if (kind == 'I') { auto* x = new MConf<IKey, Fix>(); rc = x->openall(f); slot[s] = x; }
        else if (kind == 'E') { auto* x = new MEns<StringKey, Fix>(); rc = x->openall(f); slot[s] = x; }
        else fatal("kind");
        if (rc != 0) { delete slot[s]; slot[s] = 0; }
        say(std::to_string(rc));
      }
      else if (op == "COPY") { int t; w >> s >> t; slot[t] = slot[s]->copy(); say(""); }
      else if (op == "DEL") { w >> s; delete slot[s]; slot[s] = 0; say(""); }
      else if (op == "OPEN") { int f; string m; w >> s >> f >> m; say(std::to_string(slot[s]->open(f, m))); }
      else if (op == "CLOSE") { w >> s; say(std::to_string(slot[s]->close())); }
      else if (op == "FLUSH") { w >> s; slot[s]->flush(); say(""); }
      else if (op == "NAME") { w >> s; say(std::to_string(fnum(slot[s]->name()))); }
      else if (op == "INS") { char how; w >> s >> how >> k >> v; say(std::to_string(slot[s]->ins(how, k, v))); }
      else if (op == "EINS") { char how; int n; w >> s >> how >> k >> n; vector<int> x(n); for (int& y : x) w >> y; say(std::to_string(slot[s]->eins(how, k, x))); }
      else if (op == "UPD") { int cf, ix; w >> s >> k >> v >> cf >> ix; say(std::to_string(slot[s]->upd(k, v, cf, ix))); }
      else if (op == "DONE") { w >> s; slot[s]->done(); say(""); }
      else if (op == "GET") { char how; w >> s >> how >> k; vector<int> x; int rc = slot[s]->get(how, k, x); say(std::to_string(rc) + " " + list(x)); }
      else if (op == "EXIST") { w >> s >> k; say(std::to_string(slot[s]->exist(k))); }
      else if (op == "KEYS") { char how; w >> s >> how; vector<int> x; int th = 0; try { slot[s]->keys(how, x); } catch (SerializeException&) { th = 1; } say(std::to_string(th) + " " + list(x)); }
      else if (op == "PAIRS" || op == "SOME") {
        char how = 0; w >> s; if (op == "PAIRS") w >> how;
        vector<int> x; vector<vector<int>> y; int th = 0;
        try { if (how) slot[s]->pairs(how, x, y); else slot[s]->some(x, y); } catch (SerializeException&) { th = 1; }
        string r = std::to_string(th) + " " + list(x) + ";";
        for (auto& z : y) r += " " + list(z) + ";";
        say(r);
      }
      else if (op == "EQ") { char t, how; int a, b; w >> t >> how >> a >> b;
        std::pair<int, int> r = t == 'k' ? eqs(how, mkS(a), mkS(b), kpay(b)) : t == 'u' ? eqs(how, mkU(a), mkU(b), vpay(b, vt[b - 1].len - 4)) : eqs(how, mkV(a), mkV(b), string());
        say(std::to_string(r.first) + " " + std::to_string(r.second)); }
      else if (op == "THERE") {           // slot, or a store object of its own kind that has opened nothing
        char kind; int n; w >> s >> kind >> n; vector<string> x(n); for (auto& y : x) { int f; w >> f; y = fname(f); }
        St* t = s ? slot[s] : kind == 'S' ? (St*)new Conf<StringKey, UserData>() : kind == 'P' ? (St*)new Simple() :
          kind == 'E' ? (St*)new Ens<StringKey, Fix>(vector<int>(), vector<string>(), 0) :
          kind == 'M' ? (St*)new MConf<StringKey, UserData>() : (St*)new MEns<StringKey, Fix>();
        int yes = t->there(x);
        if (!s) delete t;
        say(std::to_string(yes));
      }
      else if (op == "SIZE") { w >> s; say(std::to_string(slot[s]->size())); }
      else if (op == "USET") { w >> s >> v; say(std::to_string(slot[s]->uset(mkF(v).s))); }
      else if (op == "UGET") { w >> s; string x = "left over"; int rc = slot[s]->uget(x); say(std::to_string(rc) + " " + std::to_string(x.empty() ? 0 : ask(vsF, x))); }
      else if (op == "CAPS") { w >> s; unsigned a, b; slot[s]->caps(a, b); say(std::to_string(a) + " " + std::to_string(b)); }
      else if (op == "CSET") { int ix, cf, nm, i, t; w >> s >> ix >> cf >> nm >> i >> t; cmkname(nm); say(std::to_string(slot[s]->cset(ix, cf, nm, i, t))); }
      else if (op == "CGET") { int cf; w >> s >> cf; O o; int rc = slot[s]->cget(cf, o); say(std::to_string(rc) + o.str()); }
      else if (op == "CALL") { w >> s; O o; int rc = slot[s]->call(o); say(std::to_string(rc) + o.str()); }
      else if (op == "MERGE") { int ctor, n; unsigned b; w >> s >> ctor >> b >> n; vector<std::array<int, 3>> e(n); for (auto& x : e) { w >> x[0] >> x[1] >> x[2]; cmkname(x[2]); } peak_bytes = live_bytes; long l = live_bytes; slot[s]->merge(e, b, ctor); say(std::to_string(peak_bytes - l)); }
      else if (op == "NAMES") { int t; while (w >> t) cmkname(t); }
      else if (op == "MEM") { say(std::to_string(live_bytes - bytes0)); }
      else if (op == "RES") { long l; { l = live_allocs; } say(std::to_string(open_fds()) + " " + std::to_string(l)); }
      else if (op == "FSTAT") { int f; w >> f; say(std::to_string(fdigest(fname(f)))); }
      else if (op == "KILL") { say(""); fflush(out); _exit(77); }
      else fatal("unknown op " + op);
    }
    catch (std::exception& e) { fprintf(stderr, "exception: %s\n", e.what()); abort(); }
  }
  fprintf(out, "%d END\n", lineno);
  fclose(out);
  out = 0;
  return 0;
}

// Shared environment of the harnesses over intrusive::slist (VAR selects the container variant)
#pragma once
#include "seq.h"
#include <boost/intrusive/slist.hpp>
using namespace boost::intrusive;
#ifndef VAR
#define VAR 0
#endif
#if VAR == 0
enum { SAFE = 1, CTS = 1, LIN = 0, CL = 0 };
#elif VAR == 1
enum { SAFE = 0, CTS = 0, LIN = 0, CL = 1 };
#elif VAR == 2
enum { SAFE = 0, CTS = 0, LIN = 1, CL = 0 };
#elif VAR == 3
enum { SAFE = 0, CTS = 1, LIN = 1, CL = 1 };
#elif VAR == 4
enum { SAFE = 1, CTS = 1, LIN = 0, CL = 1 };
#elif VAR == 5
enum { SAFE = 1, CTS = 0, LIN = 0, CL = 0 };
#elif VAR == 6
enum { SAFE = 0, CTS = 0, LIN = 1, CL = 1 };
#elif VAR == 7
enum { SAFE = 0, CTS = 1, LIN = 1, CL = 0 };
#endif
typedef link_mode<SAFE ? safe_link : normal_link> LM;
#if VAR & 1
struct V { int id; slist_member_hook<LM> h; uint8_t k; };
typedef slist<V, member_hook<V, slist_member_hook<LM>, &V::h>, constant_time_size<CTS>, linear<LIN>, cache_last<CL> > L;
#else
struct V : slist_base_hook<LM> { uint8_t k; int id; };
typedef slist<V, constant_time_size<CTS>, linear<LIN>, cache_last<CL> > L;
#endif
#if VAR == 0 || VAR == 4
#define HASLINK 1
static bool linked(const V &v) { return v.is_linked(); }
#elif VAR == 5
#define HASLINK 1
static bool linked(const V &v) { return v.h.is_linked(); }
#else
#define HASLINK 0
#endif
#ifndef LEAF
static inline void tick() {}
#endif
static bool operator<(const V &a, const V &b) { tick(); return a.k < b.k; }
#ifdef VP_FINE_EQ
static uint8_t pay[32]; // operator== distinguishes more than the ordering / key equality does
static bool operator==(const V &a, const V &b) { return (a.k == b.k) & (pay[a.id] == pay[b.id]); }
#else
static bool operator==(const V &a, const V &b) { tick(); return a.k == b.k; }
#endif
enum { N = VP_B(6, 8), MX = 32 };
typedef L::const_iterator CI; typedef L::iterator I;
struct Env {
   V v[MX]; L x, y; Mdl mx, my; int used;
   Env() : used(0) { for (int i = 0; i < MX; ++i) v[i].id = i; }
   ~Env() { x.clear(); y.clear(); }
   void fill(L &l, Mdl &m, int n) { int f = used; for (int i = 0; i < n; ++i) { m.ins(m.n, used++); } for (int i = n; i-- > 0;) l.push_front(v[f + i]); }
   V &fresh(int &id) { id = used; return v[used++]; }
   void check(const L &l, const Mdl &m) {
      bool ok = (int)l.size() == m.n && l.empty() == (m.n == 0);
      CI it = l.begin(), b = l.before_begin(); ++b; ok = ok && b == it;
      for (int i = 0; i < m.n; ++i, ++it) { ok = ok && it != l.end() && &*it == &v[m.a[i]]; if (!ok) break; }
      vp_assert(ok && it == l.end(), "slist: sequence, size and empty match the specification");
      if (m.n) { vp_assert(&l.front() == &v[m.a[0]], "slist: front is the first element"); }
#if VAR == 1 || VAR == 3 || VAR == 4 || VAR == 6
      if (m.n) vp_assert(&l.back() == &v[m.a[m.n - 1]] && &*l.last() == &v[m.a[m.n - 1]], "slist: back and last are the last element");
      else vp_assert(l.last() == l.before_begin(), "slist: last of an empty list is before_begin");
#endif
      l.check();
      for (int i = 0; i < m.n; ++i) vp_observe(m.a[i]);
   }
   void done() {
      check(x, mx); check(y, my);
#if HASLINK
      bool ok = true;
      for (int i = 0; i < MX; ++i) ok = ok && linked(v[i]) == (mx.find(i) >= 0 || my.find(i) >= 0);
      vp_assert(ok, "slist: exactly the contained elements are linked");
#endif
#if VAR == 1 || VAR == 3 || VAR == 4 || VAR == 6
      // the cached last element must also be usable
      int id; V &w = fresh(id); x.push_back(w); mx.ins(mx.n, id); V &w2 = fresh(id); y.push_back(w2); my.ins(my.n, id); check(x, mx); check(y, my);
#endif
   }
   I at(int i) { return nth(x.begin(), i); }
   I bef(int i) { return nth(x.before_begin(), i); }
   I befy(int i) { return nth(y.before_begin(), i); }
};
static unsigned idx(unsigned n) { return vp_pick(n + 1); } // 0..n inclusive
struct Ctr { Mdl *m; void operator()(V *p) { m->ins(m->n, p->id);
#if HASLINK
   vp_assert(!linked(*p), "slist: element is unlinked before its disposer runs");
#endif
   } };
static bool sameSeq(const Mdl &a, const int *b, int n) { bool ok = a.n == n; for (int i = 0; ok && i < n; ++i) ok = a.a[i] == b[i]; return ok; }


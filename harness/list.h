// Shared environment of the harnesses over intrusive::list (VAR selects the container variant)
#pragma once
#include "seq.h"
#include <boost/intrusive/list.hpp>
using namespace boost::intrusive;
#ifndef VAR
#define VAR 0
#endif
#if VAR == 0
struct V : list_base_hook<> { uint8_t k; int id; };
typedef list<V> L;
enum { SAFE = 1, CTS = 1 };
#elif VAR == 1
struct V : list_base_hook<link_mode<normal_link>> { uint8_t k; int id; };
typedef list<V, constant_time_size<false>> L;
enum { SAFE = 0, CTS = 0 };
#elif VAR == 2
struct V { int id; list_member_hook<link_mode<auto_unlink>> h; uint8_t k; };
typedef list<V, member_hook<V, list_member_hook<link_mode<auto_unlink>>, &V::h>, constant_time_size<false>> L;
enum { SAFE = 1, CTS = 0 };
#elif VAR == 3
struct V { int id; list_member_hook<link_mode<normal_link>> h; uint8_t k; };
typedef list<V, member_hook<V, list_member_hook<link_mode<normal_link>>, &V::h>, constant_time_size<true>, size_type<unsigned short>> L;
enum { SAFE = 0, CTS = 1 };
#endif
#if VAR == 0
static bool linked(const V &v) { return v.is_linked(); }
#elif VAR == 2
static bool linked(const V &v) { return v.h.is_linked(); }
#endif
#ifndef LEAF
static inline void tick() {}
#endif
static bool operator<(const V &a, const V &b) { tick(); return a.k < b.k; }
#ifdef VP_FINE_EQ
static uint8_t pay[32]; // operator== distinguishes more than the ordering / key equality does
static bool operator==(const V &a, const V &b) { return (a.k == b.k) & (pay[a.id] == pay[b.id]); }
#else
static bool operator==(const V &a, const V &b) { tick(); return a.k == b.k; }
#endif
enum { N = VP_B(6, 8), MX = 32 };
struct Env {
   V v[MX]; L x, y; Mdl mx, my; int used;
   Env() : used(0) { for (int i = 0; i < MX; ++i) v[i].id = i; }
   ~Env() { x.clear(); y.clear(); }
   void fill(L &l, Mdl &m, int n) { for (int i = 0; i < n; ++i) { l.push_back(v[used]); m.ins(m.n, used++); } }
   V &fresh(int &id) { id = used; return v[used++]; }
   void check(const L &l, const Mdl &m) {
      bool ok = (int)l.size() == m.n && l.empty() == (m.n == 0);
      L::const_iterator it = l.begin();
      for (int i = 0; i < m.n; ++i, ++it) { ok = ok && it != l.end() && &*it == &v[m.a[i]]; if (!ok) break; }
      vp_assert(ok && it == l.end(), "list: forward sequence, size and empty match the specification");
      it = l.end();
      for (int i = m.n; i-- > 0;) { --it; ok = ok && &*it == &v[m.a[i]]; if (!ok) break; }
      vp_assert(ok && it == l.begin(), "list: backward sequence matches");
      L::const_reverse_iterator r = l.rbegin();
      for (int i = m.n; i-- > 0; ++r) ok = ok && &*r == &v[m.a[i]];
      ok = ok && r == l.rend();
      if (m.n) ok = ok && &l.front() == &v[m.a[0]] && &l.back() == &v[m.a[m.n - 1]];
      vp_assert(ok, "list: reverse iterators, front and back match");
      l.check();
      for (int i = 0; i < m.n; ++i) vp_observe(m.a[i]);
   }
   void done() {
      check(x, mx); check(y, my);
#if VAR == 0 || VAR == 2
      bool ok = true;
      for (int i = 0; i < MX; ++i) ok = ok && linked(v[i]) == (mx.find(i) >= 0 || my.find(i) >= 0);
      vp_assert(ok, "list: exactly the contained elements are linked");
#endif
   }
   L::iterator at(int i) { return nth(x.begin(), i); }
};
static unsigned idx(unsigned n) { return vp_pick(n + 1); } // 0..n inclusive
struct Ctr { Mdl *m; void operator()(V *p) { m->ins(m->n, p->id);
#if VAR == 0 || VAR == 2
   vp_assert(!linked(*p), "list: element is unlinked before its disposer runs");
#endif
   } };
static bool sameSeq(const Mdl &a, const int *b, int n) { bool ok = a.n == n; for (int i = 0; ok && i < n; ++i) ok = a.a[i] == b[i]; return ok; }


// C05: list node algorithms on raw nodes, for every ring/chain shape and position
#include "seq.h"
#include <boost/intrusive/circular_list_algorithms.hpp>
#include <boost/intrusive/circular_slist_algorithms.hpp>
#include <boost/intrusive/linear_slist_algorithms.hpp>
using namespace boost::intrusive;
struct N { N *n, *p; uint8_t k; };
struct LT { typedef N node; typedef N *node_ptr; typedef const N *const_node_ptr;
   static N *get_next(const N *x) { return x->n; } static void set_next(N *x, N *y) { x->n = y; }
   static N *get_previous(const N *x) { return x->p; } static void set_previous(N *x, N *y) { x->p = y; } };
enum { K = VP_B(7, 9), MX = 28 };
static unsigned idx(unsigned n) { return vp_pick(n + 1); }
struct Ev { Mdl m; N *base; };
#if VAR == 0
typedef circular_list_algorithms<LT> A; enum { DBL = 1, CIRC = 1 };
#elif VAR == 1
typedef circular_slist_algorithms<LT> A; enum { DBL = 0, CIRC = 1 };
#else
typedef linear_slist_algorithms<LT> A; enum { DBL = 0, CIRC = 0 };
#endif
struct Env {
   N v[MX]; int used; Env() : used(0) { for (int i = 0; i < MX; ++i) A::init(&v[i]); }
   // a ring/chain of header + n nodes, built by plain pointer writes (independent of the algorithms)
   int mk(Mdl &m, int n) { int f = used; for (int i = 0; i <= n; ++i) { m.ins(m.n, used++); } for (int i = 0; i <= n; ++i) { int a = f + i, b = f + (i + 1) % (n + 1); v[a].n = (!CIRC && i == n) ? 0 : &v[b]; if (DBL) v[b].p = &v[a]; } return f; }
   // m lists the nodes in order starting anywhere (ring) or at the header (chain)
   void check(const Mdl &m, const char *l) {
      bool ok = true;
      for (int i = 0; ok && i < m.n; ++i) { N *a = &v[m.a[i]], *b = &v[m.a[(i + 1) % m.n]]; ok = ok && a->n == ((!CIRC && i + 1 == m.n) ? 0 : b); if (DBL) ok = ok && b->p == a; }
      vp_assert(ok, l); for (int i = 0; i < m.n; ++i) vp_observe(m.a[i]);
   }
   N *at(const Mdl &m, int i) { return &v[m.a[i]]; }
};
static void rotTo(Mdl &m, int id) { m.rotl(m.find(id)); } // rotate so that id is first
#define L(s) "node algorithms: " s
ENTRY(basics) {
   Env e; Mdl m; int n = idx(K), h = e.mk(m, n); unsigned i = vp_pick(n + 1); N fresh; A::init(&fresh);
   vp_assert(A::inited(&fresh) && A::unique(&fresh), L("init leaves an unlinked node"));
   A::init_header(&fresh); vp_assert(A::is_empty(&fresh) && A::count(&fresh) == 1 && A::unique(&fresh), L("init_header makes an empty list"));
   N *x = e.at(m, i);
   if (CIRC) { vp_assert(!A::inited(x) && A::unique(x) == (n == 0) && A::count(x) == (unsigned)n + 1 && A::is_empty(x) == (n == 0), L("count, unique, inited and is_empty")); }
   else vp_assert(A::count(x) == n + 1 - i && A::is_empty(x) == ((int)i == n), L("count and is_empty"));
   unsigned j = CIRC ? vp_pick(n + 1) : i + vp_pick(n + 1 - i); unsigned d = (j + n + 1 - i) % (n + 1);
#if VAR < 2
   vp_assert(A::distance(x, e.at(m, j)) == d, L("distance"));
#else
   vp_assert(A::distance(x, e.at(m, j)) == d && A::end_node(x) == 0, L("distance"));
#endif
   e.check(m, L("queries do not modify the list"));
}
ENTRY(link_unlink) {
   Env e; Mdl m; int n = idx(K), h = e.mk(m, n); unsigned i = vp_pick(n + 1); N *x = e.at(m, i); int id = e.used++; N *w = &e.v[id];
   switch (vp_choose(6)) {
   case 0: A::link_after(x, w); m.ins(i + 1, id); break;
   case 1:
#if VAR < 2
      A::link_before(x, w); m.ins(i, id);
#endif
      break;
   case 2:
#if VAR < 2
      if (n) { A::unlink(x); m.del(i); }
#endif
#if VAR == 1
      { A::unlink(w); vp_assert(A::inited(w), L("unlink of an unlinked node is a no-op")); }
#endif
      break;
   case 3: { // range unlink
      if (!CIRC) { unsigned l = i + vp_pick(n + 1 - i); 
#if VAR == 2
         if (l > i) { A::unlink_after(x, l == (unsigned)n ? (vp_choose(2) ? 0 : e.at(m, l)) : e.at(m, l)); if (x->n == 0) m.n = i + 1; else m.del(i + 1, l); }
#endif
         break; }
      unsigned len = idx(n); rotTo(m, m.a[i]);
#if VAR == 0
      A::unlink(e.at(m, 0), e.at(m, len)); m.del(0, len);
#elif VAR == 1
      if (len) { A::unlink_after(e.at(m, 0), e.at(m, len)); m.del(1, len); }
#endif
      break; }
   case 4:
#if VAR
      if (n && (CIRC || (int)i < n)) { A::unlink_after(x); m.del((i + 1) % (n + 1)); }
#endif
      break;
   case 5: {
#if VAR
      int id2 = e.used++; e.v[id].n = &e.v[id2]; A::incorporate_after(x, w, &e.v[id2]); m.ins(i + 1, id); m.ins(i + 2, id2);
#endif
      break; }
   }
   e.check(m, L("linking and unlinking"));
}
ENTRY(transfer) {
   Env e; Mdl a, b; int n = idx(K - 1); e.mk(a, n); bool self = vp_choose(2); int m = n; if (!self) { m = idx(K - 1); e.mk(b, m); } Mdl &s = self ? a : b; (void)s;
#if VAR == 0
   unsigned p = vp_pick(n + 1); N *pn = e.at(a, p); int pid = a.a[p];
   if (vp_choose(2)) { // one node
      unsigned i = vp_pick(m + 1); int id = s.a[i]; if (!self && m == 0) return; A::transfer(pn, e.at(s, i));
      if (self && i == p) ; else { s.del(s.find(id)); a.ins(a.find(pid), id); }
   } else {
      unsigned i = vp_pick(m + 1), len = vp_pick(m + 1); rotTo(s, s.a[i]); if (self && (unsigned)a.find(pid) > 0 && (unsigned)a.find(pid) < len) return; if (self && pid == s.a[0] && len) { A::transfer(pn, e.at(s, 0), e.at(s, len)); }
      else { A::transfer(pn, e.at(s, 0), e.at(s, len)); Mdl t; for (unsigned q = 0; q < len; ++q) t.ins(q, s.a[q]); s.del(0, len); int at = a.find(pid); for (unsigned q = 0; q < len; ++q) a.ins(at + q, t.a[q]); }
   }
#else
   unsigned p = vp_pick(n + 1); N *pn = e.at(a, p); int pid = a.a[p]; unsigned i, len;
   if (!self && vp_choose(2)) { // everything after other
#if VAR == 1
      i = vp_pick(m + 1); rotTo(b, b.a[i]);
#endif
      A::transfer_after(pn, e.at(b, 0)); Mdl t = b; b.n = 1; for (int q = 1; q < t.n; ++q) a.ins(p + q, t.a[q]);
   } else {
      i = vp_pick(m + 1); if (CIRC) { rotTo(s, s.a[i]); i = 0; } len = vp_pick(m + 1 - i); int bid = s.a[i], eid = s.a[i + len]; // (b, e]
      int pp = self ? a.find(pid) : -1; if (self && pp > (int)i && pp < (int)(i + len)) return;
      A::transfer_after(pn, &e.v[bid], &e.v[eid]);
      if (!(self && (pid == bid || pid == eid))) { Mdl t; for (unsigned q = 1; q <= len; ++q) t.ins(q - 1, s.a[i + q]); s.del(i + 1, i + 1 + len); int at = a.find(pid); for (unsigned q = 0; q < len; ++q) a.ins(at + 1 + q, t.a[q]); }
   }
#endif
   e.check(a, L("transfer: destination")); if (!self) e.check(b, L("transfer: source"));
}
ENTRY(reverse_move) {
   Env e; Mdl m; int n = idx(K); e.mk(m, n); unsigned k = idx(2 * K + 2);
#if VAR < 2
   unsigned i = vp_pick(n + 1); rotTo(m, m.a[i]); N *p = e.at(m, 0); int op = vp_choose(3);
   if (op == 0) { A::reverse(p); Mdl t; t.ins(0, m.a[0]); for (int q = n; q >= 1; --q) t.ins(t.n, m.a[q]); m = t; }
   else {
      // nodes other than p rotate; p is the header
      Mdl t; for (int q = 1; q <= n; ++q) t.ins(q - 1, m.a[q]); unsigned kk = n ? k % n : 0; t.rotl(op == 1 ? kk : (n ? n - kk : 0));
#if VAR == 1
      N *r = op == 1 ? A::move_backwards(p, k) : A::move_forward(p, k); vp_assert(r == 0 || r == &e.v[t.a[n - 1]], L("move returns the new last node or null")); vp_assert((r != 0) == (n > 1 && kk != 0), L("move returns null exactly when nothing moved"));
#else
      if (op == 1) A::move_backwards(p, k); else A::move_forward(p, k);
#endif
      m.n = 1; for (int q = 0; q < n; ++q) m.ins(q + 1, t.a[q]);
   }
   e.check(m, L("reverse and move"));
#else
   int op = vp_choose(4); N *f = n ? e.at(m, 1) : 0; Mdl t; for (int q = 1; q <= n; ++q) t.ins(q - 1, m.a[q]);
   if (op == 0) { N *r = A::reverse(f); t.rev(); vp_assert(r == (n ? e.at(t, 0) : 0), L("reverse returns the new first node")); if (n) e.check(t, L("reverse")); }
   else if (op == 3) { Mdl b; int q = idx(3); e.mk(b, q); unsigned i = vp_pick(n + 1), j = vp_pick(q + 1); A::swap_trailing_nodes(e.at(m, i), e.at(b, j)); Mdl m2, b2; for (unsigned x = 0; x <= i; ++x) m2.ins(x, m.a[x]); for (int x = j + 1; x <= q; ++x) m2.ins(m2.n, b.a[x]); for (unsigned x = 0; x <= j; ++x) b2.ins(x, b.a[x]); for (int x = i + 1; x <= n; ++x) b2.ins(b2.n, m.a[x]); e.check(m2, L("swap_trailing_nodes")); e.check(b2, L("swap_trailing_nodes")); }
   else { A::node_pair r = op == 1 ? A::move_first_n_backwards(f, k) : A::move_first_n_forward(f, k); unsigned kk = n ? k % n : 0; t.rotl(op == 1 ? kk : (n ? n - kk : 0)); if (n > 1 && kk) vp_assert(r.first == e.at(t, 0) && r.second == e.at(t, n - 1), L("move returns the new first and last nodes")); else vp_assert(r.first == 0 && r.second == 0, L("move returns a null pair when nothing moved")); if (n) e.check(t, L("move_first_n")); }
#endif
}
#if VAR < 2
ENTRY(swap_nodes) {
   Env e; Mdl a, b; int n = idx(K - 1); e.mk(a, n); bool self = vp_choose(2); unsigned i = vp_pick(n + 1);
   if (self) { unsigned j = vp_pick(n + 1); A::swap_nodes(e.at(a, i), e.at(a, j)); int t = a.a[i]; a.a[i] = a.a[j]; a.a[j] = t; e.check(a, L("swap_nodes in one list")); return; }
   int kind = vp_choose(3);
   if (kind == 0) { int m = idx(K - 1); e.mk(b, m); unsigned j = vp_pick(m + 1); N *x = e.at(a, i), *y = e.at(b, j); A::swap_nodes(x, y); int t = a.a[i]; a.a[i] = b.a[j]; b.a[j] = t; e.check(a, L("swap_nodes across lists")); e.check(b, L("swap_nodes across lists")); }
   else { // the other node is not linked: the linked one becomes unlinked
      int id = e.used++; N *w = &e.v[id]; N *x = e.at(a, i); if (kind == 1) A::swap_nodes(x, w); else A::swap_nodes(w, x); vp_assert(A::inited(x), L("swap_nodes with an unlinked node unlinks the other")); a.a[i] = id; e.check(a, L("swap_nodes with an unlinked node")); }
}
#endif
#if VAR == 1
ENTRY(previous) {
   Env e; Mdl m; int n = idx(K); e.mk(m, n); unsigned i = vp_pick(n + 1), j = vp_pick(n + 1); int c = n + 1;
   vp_assert(A::get_previous_node(e.at(m, i)) == e.at(m, (i + c - 1) % c) && A::get_previous_node(e.at(m, j), e.at(m, i)) == e.at(m, (i + c - 1) % c) && A::get_previous_previous_node(e.at(m, i)) == e.at(m, (i + 2 * c - 2) % c), L("previous nodes"));
   vp_assert(!A::is_sentinel(e.at(m, i)), L("sentinel")); A::set_sentinel(e.at(m, i)); vp_assert(A::is_sentinel(e.at(m, i)), L("sentinel"));
}
#elif VAR == 2
ENTRY(previous) {
   Env e; Mdl m; int n = idx(K); e.mk(m, n); unsigned j = vp_pick(n + 1), i = j + vp_pick(n + 1 - j) + 1;
   vp_assert(A::get_previous_node(e.at(m, j), i == (unsigned)n + 1 ? 0 : e.at(m, i)) == e.at(m, i - 1), L("previous nodes"));
   vp_assert(!A::is_sentinel(e.at(m, j)), L("sentinel")); A::set_sentinel(e.at(m, j)); vp_assert(A::is_sentinel(e.at(m, j)), L("sentinel"));
}
#endif
struct Pr { N *boom; bool operator()(const N *x) const { if (x == boom) throw 1; return x->k > 100; } };
ENTRY(stable_partition) {
   // symbolic predicate values; optionally the predicate throws at some element
   Env e; Mdl m; int n = idx(K); e.mk(m, n); for (int i = 1; i <= n; ++i) e.v[m.a[i]].k = vp_u8(); Pr p = {0}; bool thr = n && vp_choose(2); if (thr) p.boom = e.at(m, 1 + vp_pick(n));
   A::stable_partition_info info; bool threw = false;
#if VAR == 0
   N *b = n ? e.at(m, 1) : e.at(m, 0);
#else
   N *b = e.at(m, 0);
#endif
   try { A::stable_partition(b, CIRC ? e.at(m, 0) : 0, p, info); } catch (int) { threw = true; }
   vp_assert(threw == thr, L("stable_partition propagates the exception"));
   if (threw) { // still a well-formed list with the same nodes, matching ones before non-matching ones in relative order
      int c = 0; bool seen[MX]; for (int i = 0; i < MX; ++i) seen[i] = false; N *x = e.at(m, 0), *y; bool ok = true;
      do { y = x->n; if (DBL) ok = ok && y && y->p == x; int id = x - e.v; ok = ok && id >= 0 && id < MX && !seen[id]; if (!ok) break; seen[id] = true; ++c; x = y; } while (x && x != e.at(m, 0) && c <= n + 1);
      vp_assert(ok && c == n + 1 && (CIRC ? x == e.at(m, 0) : x == 0), L("stable_partition leaves a complete well-formed list when the predicate throws")); return;
   }
   Mdl t, f; for (int i = 1; i <= n; ++i) { if (e.v[m.a[i]].k > 100) t.ins(t.n, m.a[i]); else f.ins(f.n, m.a[i]); }
   vp_assert((int)info.num_1st_partition == t.n && (int)info.num_2nd_partition == f.n && info.beg_2st_partition == (f.n ? &e.v[f.a[0]] : CIRC ? e.at(m, 0) : 0), L("stable_partition reports both partitions"));
#if VAR
   vp_assert(info.new_last_node == &e.v[f.n ? f.a[f.n - 1] : t.n ? t.a[t.n - 1] : m.a[0]], L("stable_partition reports the last node"));
#endif
   Mdl r; r.ins(0, m.a[0]); for (int i = 0; i < t.n; ++i) r.ins(r.n, t.a[i]); for (int i = 0; i < f.n; ++i) r.ins(r.n, f.a[i]); e.check(r, L("stable_partition result"));
}
#if VAR
ENTRY(dispose) {
   struct D { Mdl *d; N *b; void operator()(N *x) { d->ins(d->n, x - b); x->n = (N *)8; } };
   Env e; Mdl m, d; int n = idx(K); e.mk(m, n); D di = {&d, e.v}; unsigned i = CIRC ? 0 : vp_pick(n + 1), l;
   switch (vp_choose(3)) {
   case 0: { std::size_t c = A::detach_and_dispose(e.at(m, i), di); l = n + 1; vp_assert(c == l - i - 1, L("detach_and_dispose returns the count")); break; }
   case 1: l = i + 1 + vp_pick(n + 1 - i); { std::size_t c = A::unlink_after_and_dispose(e.at(m, i), l == (unsigned)n + 1 ? (CIRC ? e.at(m, 0) : 0) : e.at(m, l), di); vp_assert(c == l - i - 1, L("unlink_after_and_dispose returns the count")); } break;
   default: if ((int)i == n) return; A::unlink_after_and_dispose(e.at(m, i), di); l = i + 2; break;
   }
   bool ok = d.n == (int)(l - i - 1); for (int q = 0; ok && q < d.n; ++q) ok = d.a[q] == m.a[i + 1 + q]; vp_assert(ok, L("each unlinked node is disposed once, in order")); m.del(i + 1, l); e.check(m, L("dispose: remaining list"));
}
#endif

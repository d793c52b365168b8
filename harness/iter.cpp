// C28: iterators denote and traverse exactly the elements; containers are recovered from iterators
// KIND 0 list, 1 slist, 2 ordered containers (TREE, CFG), 3 hash containers (HCFG)
#if KIND == 0
#include "list.h"
#elif KIND == 1
#include "slist.h"
#elif KIND == 2
#include "tree.h"
enum { MX = 24 };
#else
#include "hash.h"
#endif
// forward iteration properties shared by all containers: x holds exactly the elements o[0..n) in this order
template <class C> static void fwd(C &x, V *v, const int *o, int n) {
   typedef typename C::iterator I; typedef typename C::const_iterator CI; const C &cx = x; bool ok = x.begin() == x.cbegin() && x.end() == x.cend() && cx.begin() == cx.cbegin() && cx.end() == cx.cend() && x.cbegin() == cx.begin() && x.cend() == cx.end();
   vp_assert(ok, "iterators: the forms of begin and end agree");
   I it = x.begin(); CI ci = cx.begin(); I pre = x.begin(); CI cpre = cx.begin(); int i = 0;
   for (; i < n && it != x.end(); ++i) {
      ok = ok && ci == it && CI(it) == ci && pre == it && cpre == ci && !(pre != it) && &*it == &v[o[i]] && &*ci == &v[o[i]] && it->id == o[i] && ci->id == o[i] && (*it).id == o[i];
      I cp(it); ok = ok && cp == it; CI cc; cc = ci; ok = ok && cc == ci && &*cc == &v[o[i]]; I as = x.end(); as = it; ok = ok && as == it && &*as == &v[o[i]]; CI cv = x.end(); cv = it; ok = ok && cv == it && &*cv == &v[o[i]];
      ok = ok && x.iterator_to(v[o[i]]) == it && cx.iterator_to(static_cast<const V &>(v[o[i]])) == ci && &*x.iterator_to(v[o[i]]) == &v[o[i]];
      I old = it++; CI cold = ci++; ok = ok && old == cp && cold == cc && &*old == &v[o[i]]; ++pre; ++cpre; ok = ok && old != it;
      vp_assert(ok, "iterators: dereference, copies, conversions, increments and iterator_to agree at every position");
   }
   vp_assert(i == n && it == x.end() && ci == cx.end() && pre == it && cpre == ci, "iterators: traversal visits exactly the contents");
   I a = I(), b = I(); CI ca = CI(), cb = CI(); vp_assert(a == b && ca == cb && !(a != b), "iterators: value-initialised iterators are equal");
}
template <class C> static void bidir(C &x, V *v, const int *o, int n) {
   typedef typename C::iterator I; typedef typename C::const_iterator CI; typedef typename C::reverse_iterator R; typedef typename C::const_reverse_iterator CR; const C &cx = x; bool ok = true;
   I it = x.end(); CI ci = cx.end(); R r = x.rbegin(); CR cr = cx.rbegin(); ok = r == x.rbegin() && cr == x.crbegin() && cx.crbegin() == cr && cx.rend() == x.crend() && cx.crend() == cx.rend() && r.base() == x.end() && x.rend().base() == x.begin();
   for (int i = n; i-- > 0;) {
      vp_assert(ok && r != x.rend() && cr != cx.rend(), "iterators: reverse traversal stops only at the end");
      I t = it--; CI ct = ci--; ok = ok && (t == r.base()) && (ct == cr.base()) && &*it == &v[o[i]] && &*ci == &v[o[i]] && &*r == &v[o[i]] && &*cr == &v[o[i]] && r->id == o[i] && cr->id == o[i];
      I u = t; --u; ok = ok && u == it; ++u; ok = ok && u == t; R r2(it); CR c2(r); ok = ok && c2 == cr && r2 != r; { R q = r; ++q; ok = ok && q == r2 && q.base() == it; --q; ok = ok && q == r; R q2 = q++; ok = ok && q2 == r && q == r2; q2 = q--; ok = ok && q2 == r2 && q == r; }
      ++r; cr++; ok = ok && r == r2;
      vp_assert(ok, "iterators: backward and reverse iterators visit the contents in reverse");
   }
   vp_assert(it == x.begin() && ci == cx.begin() && r == x.rend() && cr == cx.rend() && r.base() == x.begin(), "iterators: reverse traversal visits exactly the contents");
}
#if KIND < 2
ENTRY(forward) { Env e; e.fill(e.x, e.mx, idx(N)); fwd(e.x, e.v, e.mx.a, e.mx.n); for (int i = 0; i < e.mx.n; ++i) { V &w = e.v[e.mx.a[i]]; vp_assert(L::s_iterator_to(w) == e.at(i) && L::s_iterator_to(static_cast<const V &>(w)) == L::const_iterator(e.at(i)) && L::value_traits::to_value_ptr(L::s_iterator_to(w).pointed_node()) == &w && L::value_traits::to_node_ptr(w) == e.at(i).pointed_node(), "iterators: the static iterator_to and the pointed node agree"); } e.done(); }
#if KIND == 0
ENTRY(backward) { Env e; e.fill(e.x, e.mx, idx(N)); bidir(e.x, e.v, e.mx.a, e.mx.n); e.done(); }
#else
ENTRY(before) { Env e; e.fill(e.x, e.mx, idx(N)); const L &cx = e.x; L::iterator b = e.x.before_begin(); bool ok = L::const_iterator(b) == cx.before_begin() && cx.before_begin() == e.x.cbefore_begin(); L::iterator n = b; ++n; ok = ok && n == e.x.begin();
   for (int i = 0; i <= e.mx.n; ++i) { L::iterator it = nth(e.x.begin(), i), p = e.bef(i); ok = ok && e.x.previous(it) == p && cx.previous(L::const_iterator(it)) == L::const_iterator(p); for (int j = 0; j <= i; ++j) ok = ok && e.x.previous(e.bef(j), it) == p && cx.previous(L::const_iterator(e.bef(j)), L::const_iterator(it)) == L::const_iterator(p); }
   vp_assert(ok, "iterators: previous and before_begin are consistent with the sequence"); e.done(); }
#endif
#if KIND == 0 || !(VAR == 2 || VAR == 3 || VAR == 6 || VAR == 7) // a linear slist has no end node
struct Holder { int before; L l; int after; };
ENTRY(container_from_end) { V v[4]; Holder h[2]; int n = idx(3); for (int i = 0; i < n; ++i) { v[i].id = i; h[1].l.push_front(v[i]); }
   for (int i = 0; i < 2; ++i) { const L &c = h[i].l; vp_assert(&L::container_from_end_iterator(h[i].l.end()) == &h[i].l && &L::container_from_end_iterator(c.end()) == &c && &L::container_from_end_iterator(nth(h[1].l.begin(), n)) == &h[1].l, "iterators: the end iterator yields its container"); } h[1].l.clear(); }
#endif
#elif KIND == 2
enum { NS = VP_B(TREE < 2 ? 12 : TREE == 4 ? 6 : 8, TREE < 2 ? 12 : TREE == 4 ? 7 : 9) };
struct Env { V v[MX]; Env() { for (int i = 0; i < MX; ++i) { v[i].id = i; v[i].k = 0; v[i].pr = 0; } } };
ENTRY(forward) { Env e; Tree<M> t(e.v); int n = idx(NS); t.build(0, n, false); fwd(t.c, e.v, t.m.a, n);
   for (int i = 0; i < n; ++i) { V &w = e.v[i]; vp_assert(M::s_iterator_to(w) == t.at(i) && M::s_iterator_to(static_cast<const V &>(w)) == M::const_iterator(t.at(i)) && M::value_traits::to_value_ptr(t.at(i).pointed_node()) == &w && M::value_traits::to_node_ptr(w) == t.at(i).pointed_node(), "iterators: the static iterator_to and the pointed node agree"); } t.check(3); }
ENTRY(backward) { Env e; Tree<M> t(e.v); int n = idx(NS); t.build(0, n, false); bidir(t.c, e.v, t.m.a, n); t.check(3); }
ENTRY(root) { Env e; Tree<M> t(e.v); int n = idx(NS); t.build(0, n, false); const M &c = t.c; Tree<M>::NP r = Tree<M>::NT::get_parent(t.hdr());
   if (n) { M::iterator it = t.c.root(); M::const_iterator ci = c.root(), cc = c.croot(); vp_assert(it.pointed_node() == r && ci == it && cc == it, "iterators: root denotes the root node");
      for (int i = 0; i < n; ++i) { Tree<M>::NP p = t.at(i).pointed_node(); M::iterator a = t.at(i), b = t.at(i), d = t.at(i); a.go_left(); b.go_right(); d.go_parent(); vp_assert(a.pointed_node() == Tree<M>::NT::get_left(p) && b.pointed_node() == Tree<M>::NT::get_right(p) && d.pointed_node() == Tree<M>::NT::get_parent(p) && (!a) == (a.pointed_node() == Tree<M>::NP()) && !!a == (Tree<M>::NT::get_left(p) != Tree<M>::NP()), "iterators: structural navigation follows the links"); } }
   else vp_assert(t.c.root() == t.c.end() || !t.c.root(), "iterators: an empty tree has no root element");
}
template <class C> struct Holder { int before; C l; int after; };
template <class C> static void from() { Env e; Holder<C> h[2]; int n = idx(NS); h[0].before = 1; for (int i = 0; i < n; ++i) { e.v[i].k = i; e.v[i].pr = i & 1; h[1].l.insert(e.v[i]); }
   for (int i = 0; i < 2; ++i) { const C &c = h[i].l; vp_assert(&C::container_from_end_iterator(h[i].l.end()) == &h[i].l && &C::container_from_end_iterator(c.end()) == &c && &C::container_from_iterator(h[i].l.end()) == &h[i].l && &C::container_from_iterator(c.end()) == &c, "iterators: the end iterator yields its container"); }
   const C &c = h[1].l; for (typename C::iterator it = h[1].l.begin(); it != h[1].l.end(); ++it) vp_assert(&C::container_from_iterator(it) == &h[1].l && &C::container_from_iterator(typename C::const_iterator(it)) == &c && it.end_iterator_from_it() == h[1].l.end(), "iterators: any iterator yields its container"); h[1].l.clear(); }
ENTRY(container_from_multi) { from<M>(); }
ENTRY(container_from_uniq) { from<S>(); }
ENTRY(container_from_tree) { Env e; T t; int n = idx(NS); for (int i = 0; i < n; ++i) { e.v[i].k = i; e.v[i].pr = i & 1; t.insert_equal(e.v[i]); } const T &c = t; for (T::iterator it = t.begin();; ++it) { vp_assert(&T::container_from_iterator(it) == &t && &T::container_from_iterator(T::const_iterator(it)) == &c, "iterators: any iterator yields its container"); if (it == t.end()) break; } t.clear(); }
// any valid shape
ENTRY(container_from_shape) { Env e; Tree<M> t(e.v); int n = idx(NS); t.build(0, n, false, false); for (int i = 0; i <= n; ++i) vp_assert(&M::container_from_iterator(t.at(i)) == &t.c && t.at(i).end_iterator_from_it() == t.c.end(), "iterators: any iterator yields its container"); t.check(3); }
#else
enum { NS = F & F_FM ? VP_B(3, 3) : VP_B(5, 5) };
template <class C, class FI> static void all(FI fill) {
   Env e; unsigned bc = FM ? (vp_choose(2) ? 7 : 3) : P2 ? 1u << vp_choose(3) : 1 + vp_choose(4); hashBits = 2; hashMod = bc; HT<C> t(e.v, bc); int n = idx(NS); fill(t, n); int o[16], k = 0; const C &c = t.c;
#if HINC
   if (bc > 1 && vp_choose(2)) t.c.incremental_rehash(true);
#endif
   for (unsigned q = 0; q < bc; ++q) for (typename C::const_local_iterator l = c.begin(q); l != c.end(q) && k <= n; ++l) o[k++] = l->id;
   vp_assert(k == n, "iterators: local iteration visits exactly the contents"); fwd(t.c, e.v, o, n);
   for (unsigned q = 0; q < bc; ++q) { typename C::local_iterator l = t.c.begin(q); typename C::const_local_iterator cl = c.begin(q); bool ok = cl == c.cbegin(q) && c.end(q) == c.cend(q);
      for (int g = 0; l != t.c.end(q) && g <= n; ++g) { typename C::local_iterator cp(l), as = t.c.end(q); as = l; V &x = *l; ok = ok && cp == l && as == l && !(cp != l) && &*l == &*cl && l->id == x.id && cl->id == x.id && t.c.local_iterator_to(x) == l && c.local_iterator_to(static_cast<const V &>(x)) == cl && C::s_local_iterator_to(x) == l && C::s_local_iterator_to(static_cast<const V &>(x)) == cl; typename C::local_iterator old = l++; ok = ok && old == cp; cl++; }
      vp_assert(ok && cl == c.end(q), "iterators: local iterators, their conversions and local_iterator_to agree"); }
   t.check();
}
struct FM_ { void operator()(HT<M> &t, int n) { fillM(t, n); } }; struct FS_ { void operator()(HT<S> &t, int n) { fillS(t, n); } };
ENTRY(iter_multi) { all<M>(FM_()); }
ENTRY(iter_uniq) { all<S>(FS_()); }
#endif

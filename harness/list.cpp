// C01: intrusive list behaves as a sequence for every operation, position and length
#include "list.h"

ENTRY(push_pop) {
   Env e; e.fill(e.x, e.mx, idx(N)); int id; Mdl d; Ctr c = {&d};
   switch (vp_choose(6)) {
   case 0: { V &w = e.fresh(id); e.x.push_back(w); e.mx.ins(e.mx.n, id); break; }
   case 1: { V &w = e.fresh(id); e.x.push_front(w); e.mx.ins(0, id); break; }
   case 2: if (e.mx.n) { e.x.pop_back(); e.mx.del(e.mx.n - 1); } break;
   case 3: if (e.mx.n) { e.x.pop_front(); e.mx.del(0); } break;
   case 4: if (e.mx.n) { int w = e.mx.a[e.mx.n - 1]; e.x.pop_back_and_dispose(c); e.mx.del(e.mx.n - 1); vp_assert(sameSeq(d, &w, 1), "list: pop_back_and_dispose disposes the last element once"); } break;
   case 5: if (e.mx.n) { int w = e.mx.a[0]; e.x.pop_front_and_dispose(c); e.mx.del(0); vp_assert(sameSeq(d, &w, 1), "list: pop_front_and_dispose disposes the first element once"); } break;
   }
   e.done();
}
ENTRY(insert) {
   Env e; e.fill(e.x, e.mx, idx(N)); int id; unsigned p = idx(e.mx.n);
   if (vp_choose(2)) {
      V &w = e.fresh(id); L::iterator r = e.x.insert(e.at(p), w); vp_assert(&*r == &w, "list: insert returns the new element"); e.mx.ins(p, id);
   } else {
      int k = idx(3), f = e.used; e.used += k; e.x.insert(e.at(p), &e.v[f], &e.v[f + k]); for (int i = 0; i < k; ++i) e.mx.ins(p + i, f + i);
   }
   e.done();
}
ENTRY(erase) {
   Env e; e.fill(e.x, e.mx, idx(N)); Mdl d; Ctr c = {&d}; L::iterator r; int f = 0, l = 0;
   if (vp_choose(2)) {
      if (!e.mx.n) return; f = vp_pick(e.mx.n); l = f + 1;
      if (vp_choose(2)) r = e.x.erase(e.at(f)); else { r = e.x.erase_and_dispose(e.at(f), c); vp_assert(sameSeq(d, e.mx.a + f, 1), "list: erase_and_dispose disposes the element once"); }
   } else {
      f = idx(e.mx.n); l = f + idx(e.mx.n - f);
      switch (vp_choose(3)) {
      case 0: r = e.x.erase(e.at(f), e.at(l)); break;
      case 1: r = e.x.erase(e.at(f), e.at(l), l - f); break;
      case 2: r = e.x.erase_and_dispose(e.at(f), e.at(l), c); vp_assert(sameSeq(d, e.mx.a + f, l - f), "list: erase_and_dispose(range) disposes exactly the range in order"); break;
      }
   }
   e.mx.del(f, l);
   vp_assert(r == e.at(f), "list: erase returns the position after the erased elements");
#if VAR == 1 || VAR == 3
   (void)0;
#endif
   e.done();
}
ENTRY(clear_assign) {
   Env e; e.fill(e.x, e.mx, idx(N)); Mdl d; Ctr c = {&d}; int op = vp_choose(4), k = 0, f = 0;
   if (op >= 2) { k = idx(3); f = e.used; e.used += k; }
   switch (op) {
   case 0: e.x.clear(); break;
   case 1: e.x.clear_and_dispose(c); break;
   case 2: e.x.assign(&e.v[f], &e.v[f + k]); break;
   case 3: e.x.dispose_and_assign(c, &e.v[f], &e.v[f + k]); break;
   }
   if (op == 1 || op == 3) vp_assert(sameSeq(d, e.mx.a, e.mx.n), "list: clear_and_dispose disposes every element once in order");
   e.mx.n = 0; for (int i = 0; i < k; ++i) e.mx.ins(i, f + i);
   e.done();
}
ENTRY(splice_all) {
   Env e; e.fill(e.x, e.mx, idx(N)); e.fill(e.y, e.my, idx(3)); unsigned p = idx(e.mx.n);
   e.x.splice(e.at(p), e.y); for (int i = 0; i < e.my.n; ++i) e.mx.ins(p + i, e.my.a[i]); e.my.n = 0;
   e.done();
}
ENTRY(splice_one_range_other) {
   Env e; e.fill(e.x, e.mx, idx(N - 1)); e.fill(e.y, e.my, idx(N - 1)); unsigned p = idx(e.mx.n); int f, l;
   switch (vp_choose(3)) {
   case 0: if (!e.my.n) return; f = vp_pick(e.my.n); l = f + 1; e.x.splice(e.at(p), e.y, nth(e.y.begin(), f)); break;
   case 1: f = idx(e.my.n); l = f + idx(e.my.n - f); e.x.splice(e.at(p), e.y, nth(e.y.begin(), f), nth(e.y.begin(), l)); break;
   default: f = idx(e.my.n); l = f + idx(e.my.n - f); e.x.splice(e.at(p), e.y, nth(e.y.begin(), f), nth(e.y.begin(), l), l - f); break;
   }
   for (int i = f; i < l; ++i) e.mx.ins(p + i - f, e.my.a[i]);
   e.my.del(f, l); e.done();
}
ENTRY(splice_self) {
   Env e; e.fill(e.x, e.mx, idx(N)); unsigned p = idx(e.mx.n), f, l;
   if (vp_choose(2)) { if (!e.mx.n) return; f = vp_pick(e.mx.n); l = f + 1; e.x.splice(e.at(p), e.x, e.at(f)); }
   else { f = idx(e.mx.n); l = f + idx(e.mx.n - f); if (p > f && p < l) return; e.x.splice(e.at(p), e.x, e.at(f), e.at(l)); }
   Mdl t; for (unsigned i = f; i < l; ++i) t.ins(t.n, e.mx.a[i]);
   int q = p <= f ? p : p >= l ? p - (l - f) : f; e.mx.del(f, l); for (int i = 0; i < t.n; ++i) e.mx.ins(q + i, t.a[i]);
   e.done();
}
ENTRY(shift_reverse_swap) {
   Env e; e.fill(e.x, e.mx, idx(N)); unsigned n;
   switch (vp_choose(5)) {
   case 0: n = idx(2 * N + 1); e.x.shift_backwards(n); e.mx.rotl(e.mx.n ? e.mx.n - n % e.mx.n : 0); break; // last n to the front
   case 1: n = idx(2 * N + 1); e.x.shift_forward(n); e.mx.rotl(n); break; // first n to the back
   case 2: e.x.reverse(); e.mx.rev(); break;
   case 3: { e.fill(e.y, e.my, idx(3)); if (vp_choose(2)) e.x.swap(e.y); else swap(e.x, e.y); Mdl t = e.mx; e.mx = e.my; e.my = t; break; }
   case 4: { L::iterator i0 = e.x.begin(); L z(boost::move(e.x)); Mdl t = e.mx; e.mx.n = 0; e.check(z, t); e.check(e.x, e.mx); e.y = boost::move(z); e.check(e.y, t); if (t.n) vp_assert(i0 == e.y.begin(), "list: iterators stay valid through moves"); e.my = t; e.check(z, Mdl()); z.clear(); break; }
   }
   e.done();
}
ENTRY(remove_unique) {
   Env e; e.fill(e.x, e.mx, idx(N)); Mdl d; Ctr c = {&d}; bool sel[MX]; Mdl keep, gone; int op = vp_choose(8);
   for (int i = 0; i < e.mx.n; ++i) e.v[e.mx.a[i]].k = vp_u8();
   V w; w.k = 0; w.id = 99;
   if (op < 4) {
      uint8_t t = vp_u8(); w.k = t;
      struct P { uint8_t t; bool operator()(const V &a) const { return a.k > t; } } pr = {t};
      switch (op) { case 0: e.x.remove(w); break; case 1: e.x.remove_and_dispose(w, c); break; case 2: e.x.remove_if(pr); break; case 3: e.x.remove_and_dispose_if(pr, c); break; }
      for (int i = 0; i < e.mx.n; ++i) { bool g = op < 2 ? e.v[e.mx.a[i]].k == t : e.v[e.mx.a[i]].k > t; if (g) gone.ins(gone.n, e.mx.a[i]); else keep.ins(keep.n, e.mx.a[i]); }
   } else {
      struct Q { bool operator()(const V &a, const V &b) const { return (a.k >> 1) == (b.k >> 1); } } q;
      switch (op) { case 4: e.x.unique(); break; case 5: e.x.unique(q); break; case 6: e.x.unique_and_dispose(c); break; case 7: e.x.unique_and_dispose(q, c); break; }
      for (int i = 0; i < e.mx.n; ++i) { bool g = false; if (keep.n) { V &a = e.v[keep.a[keep.n - 1]], &b = e.v[e.mx.a[i]]; g = (op & 1) ? (a.k >> 1) == (b.k >> 1) : a.k == b.k; } if (g) gone.ins(gone.n, e.mx.a[i]); else keep.ins(keep.n, e.mx.a[i]); }
   }
   if (op == 1 || op == 3 || op >= 6) {
      // every removed element exactly once (order is not specified for remove)
      bool ok = d.n == gone.n; for (int i = 0; ok && i < gone.n; ++i) ok = d.find(gone.a[i]) >= 0; vp_assert(ok, "list: removed elements are disposed exactly once");
   }
   e.mx = keep; e.done();
}
ENTRY(iterators) {
   Env e; e.fill(e.x, e.mx, idx(N)); const L &cx = e.x;
   bool ok = &L::container_from_end_iterator(e.x.end()) == &e.x && &L::container_from_end_iterator(cx.end()) == &e.x;
   vp_assert(ok, "list: container_from_end_iterator returns the container");
   int i = 0;
   for (L::iterator it = e.x.begin(); it != e.x.end(); ++it, ++i) {
      L::iterator a = e.x.iterator_to(*it), b = L::s_iterator_to(*it); L::const_iterator c = cx.iterator_to(*it), d = L::s_iterator_to(const_cast<const V &>(*it));
      ok = ok && a == it && b == it && c == it && d == it && &*a == &e.v[e.mx.a[i]];
      L::iterator t = it++; ok = ok && t == a; t = it--; ok = ok && it == a; L::const_iterator ci(it); ok = ok && ci == a && &*ci == &*it && ci->id == it->id;
   }
   vp_assert(ok, "list: iterator_to, post-increment and conversions are consistent"); e.done();
}
ENTRY(compare) {
   Env e; e.fill(e.x, e.mx, idx(3)); e.fill(e.y, e.my, idx(3));
   for (int i = 0; i < e.used; ++i) e.v[i].k = vp_u8() & 3;
   bool lt = false, eq = e.mx.n == e.my.n, dec = false;
   for (int i = 0; i < e.mx.n && i < e.my.n; ++i) { uint8_t a = e.v[e.mx.a[i]].k, b = e.v[e.my.a[i]].k; eq = eq & (a == b); lt = lt | (!dec & (a < b)); dec = dec | (a != b); }
   lt = lt | (!dec & (e.mx.n < e.my.n)); bool gt = !lt & !eq;
   bool r1 = e.x == e.y, r2 = e.x != e.y, r3 = e.x < e.y, r4 = e.x > e.y, r5 = e.x <= e.y, r6 = e.x >= e.y;
   vp_assert((r1 == eq) & (r2 == !eq) & (r3 == lt) & (r4 == gt) & (r5 == !gt) & (r6 == !lt), "list: comparison operators are equality and lexicographical order of the sequences");
   e.done();
}

// C03: intrusive slist behaves as a singly linked sequence for every option combination
#include "slist.h"

ENTRY(push_pop) {
   Env e; e.fill(e.x, e.mx, idx(N)); int id; Mdl d; Ctr c = {&d};
   switch (vp_choose(4)) {
   case 0: { V &w = e.fresh(id); e.x.push_front(w); e.mx.ins(0, id); break; }
   case 1: if (e.mx.n) { e.x.pop_front(); e.mx.del(0); } break;
   case 2: if (e.mx.n) { int w = e.mx.a[0]; e.x.pop_front_and_dispose(c); e.mx.del(0); vp_assert(sameSeq(d, &w, 1), "slist: pop_front_and_dispose disposes the first element once"); } break;
   case 3: {
#if VAR == 1 || VAR == 3 || VAR == 4 || VAR == 6
      V &w = e.fresh(id); e.x.push_back(w); e.mx.ins(e.mx.n, id);
#endif
      break; }
   }
   e.done();
}
ENTRY(construct) {
   Env e; int n = idx(N), f = e.used; e.used += n; L z(&e.v[f], &e.v[f] + n); Mdl m; for (int i = 0; i < n; ++i) m.ins(i, f + i); e.check(z, m); z.clear(); e.check(z, Mdl()); e.done();
}
ENTRY(insert) {
   Env e; e.fill(e.x, e.mx, idx(N)); int id; unsigned p = idx(e.mx.n); int op = vp_choose(4), k = 0, f = 0;
   if (op >= 2) { k = idx(3); f = e.used; e.used += k; }
   I r;
   switch (op) {
   case 0: { V &w = e.fresh(id); r = e.x.insert_after(e.bef(p), w); vp_assert(&*r == &w, "slist: insert_after returns the new element"); e.mx.ins(p, id); break; }
   case 1: { V &w = e.fresh(id); r = e.x.insert(e.at(p), w); vp_assert(&*r == &w, "slist: insert returns the new element"); e.mx.ins(p, id); break; }
   case 2: e.x.insert_after(e.bef(p), &e.v[f], &e.v[f] + k); break;
   case 3: e.x.insert(e.at(p), &e.v[f], &e.v[f] + k); break;
   }
   for (int i = 0; i < k; ++i) e.mx.ins(p + i, f + i);
   e.done();
}
ENTRY(erase) {
   Env e; e.fill(e.x, e.mx, idx(N)); Mdl d; Ctr c = {&d}; I r; int f = 0, l = 0, op = vp_choose(10);
   if (op < 4) { if (!e.mx.n) return; f = vp_pick(e.mx.n); l = f + 1; } else { f = idx(e.mx.n); l = f + idx(e.mx.n - f); }
   switch (op) {
   case 0: r = e.x.erase_after(e.bef(f)); break;
   case 1: r = e.x.erase(e.at(f)); break;
   case 2: r = e.x.erase_after_and_dispose(e.bef(f), c); break;
   case 3: r = e.x.erase_and_dispose(e.at(f), c); break;
   case 4: r = e.x.erase_after(e.bef(f), e.at(l)); break;
   case 5: r = e.x.erase_after(e.bef(f), e.at(l), l - f); break;
   case 6: r = e.x.erase(e.at(f), e.at(l)); break;
   case 7: r = e.x.erase(e.at(f), e.at(l), l - f); break;
   case 8: r = e.x.erase_after_and_dispose(e.bef(f), e.at(l), c); break;
   case 9: r = e.x.erase_and_dispose(e.at(f), e.at(l), c); break;
   }
   if (op == 2 || op == 3 || op == 8 || op == 9) vp_assert(sameSeq(d, e.mx.a + f, l - f), "slist: erase_and_dispose disposes exactly the erased elements in order");
   e.mx.del(f, l);
   vp_assert(r == e.at(f), "slist: erase returns the position after the erased elements");
   e.done();
}
ENTRY(clear_assign) {
   Env e; e.fill(e.x, e.mx, idx(N)); Mdl d; Ctr c = {&d}; int op = vp_choose(4), k = 0, f = 0;
   if (op >= 2) { k = idx(3); f = e.used; e.used += k; }
   switch (op) {
   case 0: e.x.clear(); break;
   case 1: e.x.clear_and_dispose(c); break;
   case 2: e.x.assign(&e.v[f], &e.v[f] + k); break;
   case 3: e.x.dispose_and_assign(c, &e.v[f], &e.v[f] + k); break;
   }
   if (op == 1 || op == 3) vp_assert(sameSeq(d, e.mx.a, e.mx.n), "slist: clear_and_dispose disposes every element once in order");
   e.mx.n = 0; for (int i = 0; i < k; ++i) e.mx.ins(i, f + i);
   e.done();
}
ENTRY(splice_all) {
   Env e; e.fill(e.x, e.mx, idx(N)); e.fill(e.y, e.my, idx(3)); unsigned p = idx(e.mx.n); CI l; bool want = vp_choose(2);
   if (vp_choose(2)) e.x.splice_after(e.bef(p), e.y, want ? &l : 0); else e.x.splice(e.at(p), e.y, want ? &l : 0);
   for (int i = 0; i < e.my.n; ++i) e.mx.ins(p + i, e.my.a[i]);
   if (want) vp_assert(l == e.bef(p + e.my.n), "slist: splice reports the last spliced element, or the position when nothing was spliced");
   e.my.n = 0; e.done();
}
ENTRY(splice_other) {
   Env e; e.fill(e.x, e.mx, idx(N - 1)); e.fill(e.y, e.my, idx(N - 1)); unsigned p = idx(e.mx.n); int f, l, op = vp_choose(6);
   if (op < 2) { if (!e.my.n) return; f = vp_pick(e.my.n); l = f + 1; } else { f = idx(e.my.n); l = f + idx(e.my.n - f); }
   switch (op) {
   case 0: e.x.splice_after(e.bef(p), e.y, e.befy(f)); break;
   case 1: e.x.splice(e.at(p), e.y, nth(e.y.begin(), f)); break;
   case 2: if (l == f) return; e.x.splice_after(e.bef(p), e.y, e.befy(f), e.befy(l)); break;
   case 3: if (l == f) return; e.x.splice_after(e.bef(p), e.y, e.befy(f), e.befy(l), l - f); break;
   case 4: e.x.splice(e.at(p), e.y, nth(e.y.begin(), f), nth(e.y.begin(), l)); break;
   case 5: e.x.splice(e.at(p), e.y, nth(e.y.begin(), f), nth(e.y.begin(), l), l - f); break;
   }
   for (int i = f; i < l; ++i) e.mx.ins(p + i - f, e.my.a[i]);
   e.my.del(f, l); e.done();
}
ENTRY(splice_self) {
   Env e; e.fill(e.x, e.mx, idx(N)); unsigned p = idx(e.mx.n), f, l; int op = vp_choose(4);
   if (op < 2) { if (!e.mx.n) return; f = vp_pick(e.mx.n); l = f + 1; } else { f = idx(e.mx.n); l = f + idx(e.mx.n - f); if (f == l) return; if (p > f && p < l) return; }
   switch (op) {
   case 0: e.x.splice_after(e.bef(p), e.x, e.bef(f)); break;
   case 1: e.x.splice(e.at(p), e.x, e.at(f)); break;
   case 2: e.x.splice_after(e.bef(p), e.x, e.bef(f), e.bef(l)); break;
   case 3: e.x.splice(e.at(p), e.x, e.at(f), e.at(l)); break;
   }
   Mdl t; for (unsigned i = f; i < l; ++i) t.ins(t.n, e.mx.a[i]);
   int q = p <= f ? p : p >= l ? p - (l - f) : f; e.mx.del(f, l); for (int i = 0; i < t.n; ++i) e.mx.ins(q + i, t.a[i]);
   e.done();
}
ENTRY(shift_reverse_swap) {
   Env e; e.fill(e.x, e.mx, idx(N)); unsigned n;
   switch (vp_choose(5)) {
   case 0: n = idx(2 * N + 1); e.x.shift_backwards(n); e.mx.rotl(e.mx.n ? e.mx.n - n % e.mx.n : 0); break;
   case 1: n = idx(2 * N + 1); e.x.shift_forward(n); e.mx.rotl(n); break;
   case 2: e.x.reverse(); e.mx.rev(); break;
   case 3: { e.fill(e.y, e.my, idx(3)); if (vp_choose(2)) e.x.swap(e.y); else swap(e.x, e.y); Mdl t = e.mx; e.mx = e.my; e.my = t; break; }
   case 4: { L z(boost::move(e.x)); Mdl t = e.mx; e.mx.n = 0; e.check(z, t); e.check(e.x, e.mx); e.y = boost::move(z); e.check(e.y, t); e.my = t; e.check(z, Mdl()); z.clear(); break; }
   }
   e.done();
}
ENTRY(remove_unique) {
   Env e; e.fill(e.x, e.mx, idx(N)); Mdl d; Ctr c = {&d}; Mdl keep, gone; int op = vp_choose(8);
   for (int i = 0; i < e.mx.n; ++i) e.v[e.mx.a[i]].k = vp_u8();
   V w; w.k = 0; w.id = 99;
   if (op < 4) {
      uint8_t t = vp_u8(); w.k = t;
      struct P { uint8_t t; bool operator()(const V &a) const { return a.k > t; } } pr = {t};
      switch (op) { case 0: e.x.remove(w); break; case 1: e.x.remove_and_dispose(w, c); break; case 2: e.x.remove_if(pr); break; case 3: e.x.remove_and_dispose_if(pr, c); break; }
      for (int i = 0; i < e.mx.n; ++i) { bool g = op < 2 ? e.v[e.mx.a[i]].k == t : e.v[e.mx.a[i]].k > t; if (g) gone.ins(gone.n, e.mx.a[i]); else keep.ins(keep.n, e.mx.a[i]); }
   } else {
      struct Q { bool operator()(const V &a, const V &b) const { return (a.k >> 1) == (b.k >> 1); } } q;
      switch (op) { case 4: e.x.unique(); break; case 5: e.x.unique(q); break; case 6: e.x.unique_and_dispose(c); break; case 7: e.x.unique_and_dispose(q, c); break; }
      for (int i = 0; i < e.mx.n; ++i) { bool g = false; if (keep.n) { V &a = e.v[keep.a[keep.n - 1]], &b = e.v[e.mx.a[i]]; g = (op & 1) ? (a.k >> 1) == (b.k >> 1) : a.k == b.k; } if (g) gone.ins(gone.n, e.mx.a[i]); else keep.ins(keep.n, e.mx.a[i]); }
   }
   if (op == 1 || op == 3 || op >= 6) {
      bool ok = d.n == gone.n; for (int i = 0; ok && i < gone.n; ++i) ok = d.find(gone.a[i]) >= 0; vp_assert(ok, "slist: removed elements are disposed exactly once");
   }
   e.mx = keep; e.done();
}
ENTRY(iterators) {
   Env e; e.fill(e.x, e.mx, idx(N)); const L &cx = e.x; bool ok = true;
#if VAR == 0 || VAR == 1 || VAR == 4 || VAR == 5
   ok = &L::container_from_end_iterator(e.x.end()) == &e.x && &L::container_from_end_iterator(cx.end()) == &e.x;
   vp_assert(ok, "slist: container_from_end_iterator returns the container");
#endif
   int i = 0;
   for (I it = e.x.begin(); it != e.x.end(); ++it, ++i) {
      I a = e.x.iterator_to(*it), b = L::s_iterator_to(*it); CI c = cx.iterator_to(*it), d = L::s_iterator_to(const_cast<const V &>(*it));
      ok = ok && a == it && b == it && c == it && d == it && &*a == &e.v[e.mx.a[i]];
      I t = it++; ok = ok && t == a; CI ci(t); ok = ok && ci == a && &*ci == &*t && ci->id == t->id;
      ok = ok && e.x.previous(it) == t && e.x.previous(t) == e.bef(i) && cx.previous(CI(it)) == t && e.x.previous(e.bef(i), it) == t; it = t;
   }
   ok = ok && e.x.previous(e.x.end()) == e.bef(e.mx.n) && e.x.before_begin() == e.x.cbefore_begin() && e.x.begin() == e.x.cbegin() && e.x.end() == e.x.cend();
   vp_assert(ok, "slist: iterator_to, previous, post-increment and conversions are consistent"); e.done();
}
ENTRY(compare) {
   Env e; e.fill(e.x, e.mx, idx(3)); e.fill(e.y, e.my, idx(3));
   for (int i = 0; i < e.used; ++i) e.v[i].k = vp_u8() & 3;
   bool lt = false, eq = e.mx.n == e.my.n, dec = false;
   for (int i = 0; i < e.mx.n && i < e.my.n; ++i) { uint8_t a = e.v[e.mx.a[i]].k, b = e.v[e.my.a[i]].k; eq = eq & (a == b); lt = lt | (!dec & (a < b)); dec = dec | (a != b); }
   lt = lt | (!dec & (e.mx.n < e.my.n)); bool gt = !lt & !eq;
   bool r1 = e.x == e.y, r2 = e.x != e.y, r3 = e.x < e.y, r4 = e.x > e.y, r5 = e.x <= e.y, r6 = e.x >= e.y;
   vp_assert((r1 == eq) & (r2 == !eq) & (r3 == lt) & (r4 == gt) & (r5 == !gt) & (r6 == !lt), "slist: comparison operators are equality and lexicographical order of the sequences");
   e.done();
}

// C35: containers whose hooks store offset_ptr behave as usual and survive relocation of the memory block that holds
// the container, its buckets and its elements
// CK: 0 list, 1 slist, 2 rb, 3 avl, 4 splay, 5 scapegoat, 6 treap, 7 bs, 8 hash; FL: bit 0 member hook, bits 1, 2 hook or container variants
#include "seq.h"
#include <boost/intrusive/list.hpp>
#include <boost/intrusive/slist.hpp>
#include <boost/intrusive/set.hpp>
#include <boost/intrusive/avl_set.hpp>
#include <boost/intrusive/splay_set.hpp>
#include <boost/intrusive/sg_set.hpp>
#include <boost/intrusive/treap_set.hpp>
#include <boost/intrusive/bs_set.hpp>
#include <boost/intrusive/unordered_set.hpp>
#include <boost/interprocess/offset_ptr.hpp>
#include <cstring>
#include <new>
using namespace boost::intrusive;
enum { MEM = FL & 1, VA = (FL & 2) != 0, VB = (FL & 4) != 0 };
typedef void_pointer<boost::interprocess::offset_ptr<void> > Vp; typedef link_mode<FL & 1 ? normal_link : safe_link> Lm;
#if CK == 0
typedef list_base_hook<Vp, Lm> HB; typedef list_member_hook<Vp, Lm> HM;
#elif CK == 1
typedef slist_base_hook<Vp, Lm> HB; typedef slist_member_hook<Vp, Lm> HM;
#elif CK == 2
typedef set_base_hook<Vp, Lm, optimize_size<VA> > HB; typedef set_member_hook<Vp, Lm, optimize_size<VA> > HM;
#elif CK == 3
typedef avl_set_base_hook<Vp, Lm, optimize_size<VA> > HB; typedef avl_set_member_hook<Vp, Lm, optimize_size<VA> > HM;
#elif CK == 8
typedef unordered_set_base_hook<Vp, Lm, store_hash<VA>, optimize_multikey<VB> > HB; typedef unordered_set_member_hook<Vp, Lm, store_hash<VA>, optimize_multikey<VB> > HM;
#else
typedef bs_set_base_hook<Vp, Lm> HB; typedef bs_set_member_hook<Vp, Lm> HM;
#endif
#if FL & 1
struct V { int id; uint8_t k; HM h; };
typedef member_hook<V, HM, &V::h> O;
#else
struct V : HB { int id; uint8_t k; };
typedef base_hook<HB> O;
#endif
static bool operator<(const V &a, const V &b) { return a.k < b.k; }
static bool operator==(const V &a, const V &b) { return a.k == b.k; }
static bool priority_order(const V &a, const V &b) { return (a.id * 5 % 7) < (b.id * 5 % 7); }
struct Hash { std::size_t operator()(const V &v) const { return v.k; } };
typedef constant_time_size<!VB> Cts;
#if CK == 0
typedef list<V, O, Cts> C;
#elif CK == 1
typedef slist<V, O, Cts, linear<VA>, cache_last<VB> > C;
#elif CK == 2
typedef multiset<V, O, Cts> C;
#elif CK == 3
typedef avl_multiset<V, O, Cts> C;
#elif CK == 4
typedef splay_multiset<V, O, Cts> C;
#elif CK == 5
typedef sg_multiset<V, O, floating_point<!VA> > C;
#elif CK == 6
typedef treap_multiset<V, O, Cts> C;
#elif CK == 7
typedef bs_multiset<V, O, Cts> C;
#else
typedef unordered_multiset<V, O, hash<Hash>, cache_begin<VB>, power_2_buckets<VA> > C;
#endif
enum { NE = VP_B(4, 5), NB = 2, SEQ = CK != 8 };
// everything that refers to each other lives in one block; the model does not
struct Block {
   uint64_t pad; V v[NE];
#if CK == 8
   C::bucket_type b[NB]; C c; Block() : c(C::bucket_traits(b, NB))
#else
   C c; Block()
#endif
   { for (int i = 0; i < NE; ++i) v[i].id = i, v[i].k = 0; }
   ~Block() { c.clear(); }
};
struct World { Block *p; Mdl m; World() : p(new Block) { for (int i = 0; i < NE; ++i) p->v[i].k = CK > 1 ? (uint8_t)vp_pick(CK == 8 ? 3 : 2) : 0; } ~World() { delete p; }
   void put(int id) { V &x = p->v[id];
#if CK == 0
      p->c.push_back(x); m.ins(m.n, id);
#elif CK == 1
      p->c.push_front(x); m.ins(0, id);
#else
      p->c.insert(x); int q = 0; while (q < m.n && !(x.k < p->v[m.a[q]].k)) ++q; m.ins(q, id);
#endif
   }
   void del(int id) { p->c.erase(p->c.iterator_to(p->v[id])); m.del(m.find(id)); }
   void toggle() { int id = vp_pick(NE); if (m.find(id) < 0) put(id); else del(id); }
   void check() { C &c = p->c; bool seen[NE] = {0}; int n = 0;
      for (C::iterator it = c.begin(); it != c.end() && n <= m.n; ++it, ++n) { int id = int(&*it - p->v); bool ok = id >= 0 && id < NE && !seen[id] && it->id == id && (SEQ ? m.a[n] == id : m.find(id) >= 0) && &*c.iterator_to(p->v[id]) == &p->v[id]; seen[id] = true; vp_assert(ok, "relocation: the container holds exactly its elements at their present addresses"); }
      vp_assert(n == m.n && (int)c.size() == n && c.empty() == (n == 0), "relocation: the container holds exactly its elements at their present addresses");
#if CK == 0 || (CK > 1 && CK < 8)
      C::iterator it = c.end(); for (int i = n; i-- > 0;) { --it; vp_assert(&*it == &p->v[m.a[i]], "relocation: backward traversal agrees"); } vp_assert(it == c.begin(), "relocation: backward traversal agrees");
#endif
#if CK == 1 && (FL & 4)
      if (n) vp_assert(&c.back() == &p->v[m.a[n - 1]], "relocation: the cached last element moves along");
#endif
#if CK > 1
      for (int k = 0; k < 3; ++k) { V q; q.k = k; q.id = 7; int e = 0; for (int i = 0; i < m.n; ++i) e += p->v[m.a[i]].k == k; C::iterator f = c.find(q); vp_assert((f == c.end()) == (e == 0) && (e == 0 || f->k == k) && c.count(q) == (unsigned)e, "relocation: lookups agree with the contents"); }
#endif
      c.check(); }
   void move() { Block *q = static_cast<Block *>(::operator new(sizeof(Block) + 64)); if (vp_choose(2)) { ::operator delete(q); q = static_cast<Block *>(::operator new(sizeof(Block))); } std::memcpy((void *)q, (void *)p, sizeof(Block)); std::memset((void *)p, 0xDB, sizeof(Block)); ::operator delete(p); p = q; }
};
enum { K1 = CK < 2 ? 3 : 2, K2 = 2 };
ENTRY(relocate) { World w; for (int i = 0; i < K1; ++i) w.toggle(); w.check(); w.move(); w.check(); for (int i = 0; i < K2; ++i) { w.toggle(); w.check(); } w.move(); w.check(); }
// larger contents, inserted in any order of the first NE ids
ENTRY(full) { World w; for (int i = 0; i < NE; ++i) w.put(i); w.move(); w.check(); int id = vp_pick(NE); w.del(id); w.check(); w.move(); w.put(id); w.check();
#if CK < 2
   w.p->c.reverse(); w.m.rev(); w.check(); w.move(); w.p->c.sort(); w.check();
#endif
   w.p->c.clear(); w.m.n = 0; w.move(); w.check(); w.put(0); w.check(); }

// concrete sequence model: the specification side of the sequence-container harnesses
#pragma once
#include "vp.h"
struct Mdl {
   int n; int a[40];
   Mdl() : n(0) {}
   void ins(int p, int id) { for (int i = n; i > p; --i) a[i] = a[i - 1]; a[p] = id; ++n; }
   void del(int p) { for (int i = p; i + 1 < n; ++i) a[i] = a[i + 1]; --n; }
   void del(int f, int l) { for (int i = l; i > f; --i) del(f); }
   void rev() { for (int i = 0; i < n / 2; ++i) { int t = a[i]; a[i] = a[n - 1 - i]; a[n - 1 - i] = t; } }
   void rotl(int k) { if (n) for (k %= n; k > 0; --k) { int t = a[0]; for (int i = 0; i + 1 < n; ++i) a[i] = a[i + 1]; a[n - 1] = t; } }
   int find(int id) const { for (int i = 0; i < n; ++i) if (a[i] == id) return i; return -1; }
};
template <class It> It nth(It b, int k) { while (k-- > 0) ++b; return b; }

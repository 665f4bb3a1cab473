#include "str_ops.h"
static void hash(Slots& w, size_t k)
{
   String f = mk(w.m[k]);
   int64 e = f.constHashCode(), a = w.s[k]->constHashCode(), b = w.s[k]->hashCode(), c = w.s[k]->hashCode(), d = w.s[k]->constHashCode();
   int64 g = f.hashCode();
   if(!(a == e && b == e && c == e && d == e && g == e)) fail("hash of %s: const %lld first %lld second %lld const again %lld, fresh string const %lld, fresh string %lld", CS(w.m[k]), (long long)a, (long long)b, (long long)c, (long long)d, (long long)e, (long long)g);
}
void run()
{
   std::vector<U> base = allstr(2); for(auto& h : vh_hintstrings()) base.push_back(h);
   base.push_back(U(15, 'x')); base.push_back(U(16, 'y')); base.push_back(U(17, 0xFFFF)); base.push_back(asc(" \t a b\n\r ")); base.push_back(u"\u00C4\u00D6\u00DC\u00E4\u00F6\u00FC\u00DF"); base.push_back(u"\uFFFF\u8000\u7FFF");
   for(int op = 0; op < NOPS; op++) for(auto& a : base) for(auto& b : base) for(int64_t p : {(int64_t)0, (int64_t)1, (int64_t)a.size() - 1}) for(int64_t q : {(int64_t)1, (int64_t)0, (int64_t)a.size()}) for(int al = 0; al < 2; al++) for(int hs = 0; hs < 2; hs++) {
      Slots w(2); *w.s[0] = mk(a); *w.s[1] = mk(b); w.m[0] = a; w.m[1] = b;
      if(hs) { w.s[0]->hashCode(); w.s[1]->hashCode(); }
      strop(w, op, 0, al ? 0 : 1, p, q, 'z', 'b');
      hash(w, 0); hash(w, 1);
   }
   for(int n = 0; n < 3000; n += 1 + n / 20) { U a; for(int i = 0; i < n; i++) a += (char16_t)rnd(); Slots w(1); *w.s[0] = mk(a); w.m[0] = a; CASE("hash of a random string of length %d", n); hash(w, 0); }
   while(timeleft()) {
      Slots w(4);
      for(int k = 0; k < 60; k++) {
         int i = (int)(rnd() % 4), j = (int)(rnd() % 4);
         if(w.m[i].size() > 800) { w.s[i]->zero(); w.m[i].clear(); }
         if(coin()) w.s[j]->hashCode();
         if(coin()) w.s[i]->hashCode();
         char16_t c = rnd() % 4 ? (char16_t)("abz "[rnd() % 4]) : (char16_t)rnd();
         strop(w, k < 4 ? 23 : (int)(rnd() % NOPS), i, j, rpos((int64_t)w.m[i].size()), rpos((int64_t)w.m[j].size()), c, (char16_t)("bcA"[rnd() % 3]));
         if(coin()) hash(w, (size_t)(rnd() % 4)); else hash(w, (size_t)i);
      }
      vh_stats["histories"]++;
   }
}

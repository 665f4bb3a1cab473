#include "str_ops.h"
void run()
{
   // hints and small scope: every operation on every pair of short strings at every position
   std::vector<U> base = allstr(2); for(auto& h : vh_hintstrings()) base.push_back(h);
   base.push_back(U(15, 'x')); base.push_back(U(16, 'y')); base.push_back(U(17, 'z')); base.push_back(asc(" \t a b\n\r ")); base.push_back(asc("   ")); base.push_back(u"\u00C4\u00D6\u00DC\u00E4\u00F6\u00FC\u00DF");
   for(int op = 0; op < NOPS; op++)
      for(auto& a : base) for(auto& b : base) for(int al = 0; al < 2; al++)
         for(int64_t p : {(int64_t)-1, (int64_t)0, (int64_t)1, (int64_t)a.size() - 1, (int64_t)a.size(), (int64_t)a.size() + 1, (int64_t)INT64_MIN, (int64_t)INT64_MAX})
            for(int64_t q : {(int64_t)-1, (int64_t)0, (int64_t)1, (int64_t)2, (int64_t)a.size(), (int64_t)INT64_MAX}) {
               if(!(op == 2 || op == 3 || op == 4 || op == 5 || op == 6 || op == 7 || op == 14 || op == 15) && (p || q)) continue;
               if(op != 5 && op != 14 && q) continue;
               Slots w(2); *w.s[0] = mk(a); *w.s[1] = mk(b); w.m[0] = a; w.m[1] = b;
               strop(w, op, 0, al ? 0 : 1, p, q, 'a', 'b');
            }
   // lengths around every allocation boundary
   for(int n = 0; n < 70; n++) for(int m = 0; m < 40; m++) for(int op : {0, 1, 2, 3, 9, 10, 11, 14, 24}) for(int al = 0; al < 2; al++) {
      U a, b; for(int i = 0; i < n; i++) a += (char16_t)(0x100 + i); for(int i = 0; i < m; i++) b += (char16_t)(0x200 + i);
      Slots w(2); *w.s[0] = mk(a); *w.s[1] = mk(b); w.m[0] = a; w.m[1] = b;
      strop(w, op, 0, al ? 0 : 1, n / 2, n, 'q', 'b'); strop(w, op, 0, al ? 0 : 1, 0, n / 3, 'r', 'b');
   }
   // every character through the case mappings and trim
   for(int c = 0; c < 65536; c++) { Slots w(2); U a; a += (char16_t)c; a += 'm'; a += (char16_t)c; *w.s[1] = mk(a); w.m[1] = a; for(int op : {12, 13, 16}) strop(w, op, 0, 1, 0, 0, 0, 0); }
   // constructors
   for(int n = 0; n < 40; n++) {
      U z; for(int i = 0; i < n; i++) z += (char16_t)('!' + i);
      std::string a = u8s(z);
      CASE("String(const char*, size) %s", CS(z)); EXPECT(val(String(a.c_str(), (int64)n)) == z, "got %s", CS(val(String(a.c_str(), (int64)n))));
      CASE("String(const char*) %s", CS(z)); EXPECT(val(String(a.c_str())) == z, "got %s", CS(val(String(a.c_str()))));
      if(n) { CASE("String(const char*, Charset) %s", CS(z)); EXPECT(val(String(a.c_str(), Charset::forName("UTF-8"))) == z, "wrong"); }
   }
   // histories
   while(timeleft()) {
      Slots w(4);
      int len = 60;
      for(int k = 0; k < len; k++) {
         int i = (int)(rnd() % 4), j = (int)(rnd() % 4);
         if(w.m[i].size() > 1500) { w.s[i]->zero(); w.m[i].clear(); }
         char16_t c = rnd() % 4 ? (char16_t)("abz "[rnd() % 4]) : (char16_t)rnd();
         strop(w, k < 4 ? 23 : (int)(rnd() % NOPS), i, j, rpos((int64_t)w.m[i].size()), rpos((int64_t)w.m[j].size()), c, (char16_t)("bcA"[rnd() % 3]));
      }
      vh_stats["histories"]++;
   }
}

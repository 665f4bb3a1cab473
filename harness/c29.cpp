#include "vh.h"
static bool dg(const U& u, size_t i) { return i < u.size() && u[i] >= '0' && u[i] <= '9'; }
static U subst(const U& t, const U& v, int64_t w, char16_t f)
{
   int best = 1000; size_t pos = 0, end = 0;
   for(size_t i = 0; i < t.size(); i++) if(t[i] == '%' && dg(t, i + 1)) {
      int n = t[i + 1] - '0'; size_t e = i + 2; if(dg(t, i + 2)) { n = n * 10 + t[i + 2] - '0'; e++; }
      if(n < best) { best = n; pos = i; end = e; }
   }
   if(best == 1000) return t;
   U p = (int64_t)v.size() < (w < 0 ? -w : w) ? U((size_t)((w < 0 ? -w : w) - (int64_t)v.size()), f) : U();
   return t.substr(0, pos) + (w > 0 ? p : U()) + v + (w < 0 ? p : U()) + t.substr(end);
}
static void one(const U& t, const U& v, int64_t x, int64_t w, char16_t f)
{
   CASE("text %s, value %s / %lld, width %lld, fill %04X", CS(t), CS(v), (long long)x, (long long)w, f);
   String s = mk(t); String vs = mk(v); Char fc((uint16)f);
   U r = val(s.arg(vs, w, fc)); if(r != subst(t, v, w, f)) fail("arg(String) gives %s instead of %s", CS(r), CS(subst(t, v, w, f)));
   auto num = [&](const char* k, const U& g, const std::string& d) { U e = subst(t, asc(d), w, f); if(g != e) fail("arg(%s) gives %s instead of %s", k, CS(g), CS(e)); };
   num("int64", val(s.arg((int64)x, w, fc)), std::to_string((long long)x));
   num("uint64", val(s.arg((uint64)x, w, fc)), std::to_string((unsigned long long)x));
   num("int32", val(s.arg((int32)x, w, fc)), std::to_string((int)x));
   num("uint32", val(s.arg((uint32)x, w, fc)), std::to_string((unsigned)x));
   if(!v.empty()) { U g = val(s.arg(Char((uint16)v[0]), w, fc)); U e = subst(t, U(1, v[0]), w, f); if(g != e) fail("arg(Char) gives %s instead of %s", CS(g), CS(e)); }
   double d = (double)(int32_t)x / 8; U dv = val(String::valueOf(d, 3, false));
   U g = val(s.arg(d, w, 3, fc)); if(g != subst(t, dv, w, f)) fail("arg(double) gives %s instead of %s", CS(g), CS(subst(t, dv, w, f)));
   if(val(s) != t) fail("the text itself changed");
   U self = val(s.arg(s, w, fc)); if(self != subst(t, t, w, f)) fail("arg with the text itself as value gives %s", CS(self));
}
void run()
{
   for(auto& t : allstr(6, "%01x")) { one(t, u"AB", 7, 0, ' '); }
   for(auto& t : allstr(4, "%19")) for(int64_t w : {(int64_t)0, (int64_t)1, (int64_t)3, (int64_t)-3, (int64_t)25, (int64_t)-25}) one(t, u"%2", -42, w, '_');
   for(auto& h : vh_hintstrings()) for(int64_t w : vh_hi) if(w > -1000 && w < 1000) one(h, u"v", 5, w, '.');
   while(timeleft()) {
      U t; int n = (int)(rnd() % 14); for(int i = 0; i < n; i++) t += (char16_t)(coin(10) ? rnd() : (uint64_t)"%%%%0123456789ab"[rnd() % 16]);
      U v = rstr(6, 9); one(t, v, rint64(), ri(-12, 12), (char16_t)(coin() ? ' ' : rnd()));
   }
}

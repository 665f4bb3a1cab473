#include "vh.h"
static U dec(unsigned __int128 m, bool neg) { U u; do { u.insert(u.begin(), (char16_t)('0' + (int)(m % 10))); m /= 10; } while(m); if(neg) u.insert(u.begin(), '-'); return u; }
static U dec(int64_t x) { return x < 0 ? dec((unsigned __int128)(-(__int128)x), true) : dec((unsigned __int128)x, false); }
static void one(int64_t x)
{
   CASE("64 bit integer %lld", (long long)x);
   U e = dec(x), eu = dec((unsigned __int128)(uint64_t)x, false);
   String s = String::valueOf((int64)x);
   if(val(s) != e) fail("valueOf(int64) gives %s", CS(val(s)));
   if(s.toInt() != x) fail("reading %s back gives %lld", CS(val(s)), (long long)s.toInt());
   String t = String::valueOf((uint64)x);
   if(val(t) != eu) fail("valueOf(uint64) gives %s", CS(val(t)));
   if(x >= 0 && t.toInt() != x) fail("reading back unsigned gives %lld", (long long)t.toInt());
   int32_t y = (int32_t)x; uint32_t z = (uint32_t)x;
   if(val(String::valueOf((int32)y)) != dec(y)) fail("valueOf(int32 %d) gives %s", y, CS(val(String::valueOf((int32)y))));
   if(val(String::valueOf((uint32)z)) != dec((int64_t)z)) fail("valueOf(uint32 %u) gives %s", z, CS(val(String::valueOf((uint32)z))));
   if(String::valueOf((int32)y).toInt() != y || String::valueOf((uint32)z).toInt() != (int64_t)z) fail("32 bit round trip");
   String o; o << (int64)x;
   if(val(o) != e) fail("operator<< gives %s", CS(val(o)));
}
static void parse(const U& u)
{
   CASE("text %s", CS(u));
   bool ok = true; unsigned __int128 m = 0; bool big = false, neg = !u.empty() && u[0] == '-';
   for(size_t i = neg ? 1 : 0; i < u.size(); i++) { if(u[i] < '0' || u[i] > '9') ok = false; else { m = m * 10 + (unsigned)(u[i] - '0'); if(m > ((unsigned __int128)1 << 63)) { big = true; m = (unsigned __int128)1 << 70; } } }
   String s = mk(u); int64 r = 0;
   bool th = throws([&] { r = s.toInt(); });
   if(th != !ok) fail(th ? "a numeral is rejected" : "text is accepted as %lld", (long long)r);
   if(!ok || big || (!neg && m >> 63)) return;
   int64_t e = neg ? (int64_t)(0 - (uint64_t)m) : (int64_t)m;
   if(r != e) fail("value %lld instead of %lld", (long long)r, (long long)e);
}
void run()
{
   for(int64_t x : edge64()) one(x);
   for(int64_t x = -70000; x <= 70000; x++) one(x);
   for(auto& u : allstr(4, "-09a")) parse(u);
   for(int c = 0; c < 65536; c++) { parse(U(1, (char16_t)c)); parse(U(u"1") + (char16_t)c); parse(U(u"-") + (char16_t)c + u"2"); }
   for(auto& u : vh_hintstrings()) parse(u);
   while(timeleft()) for(int i = 0; i < 1000; i++) {
      one(rint64());
      U u; int n = (int)(rnd() % 21); if(coin(3)) u += '-'; for(int k = 0; k < n; k++) u += (char16_t)(coin(60) ? "-+ ax:/\u0660"[rnd() % 7] : '0' + rnd() % 10); parse(u);
   }
}

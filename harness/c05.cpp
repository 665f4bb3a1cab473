#include "vh.h"
static U roman(int64_t n)
{
   static const char* o[] = {"", "I", "II", "III", "IV", "V", "VI", "VII", "VIII", "IX"}; static const char* t[] = {"", "X", "XX", "XXX", "XL", "L", "LX", "LXX", "LXXX", "XC"}; static const char* h[] = {"", "C", "CC", "CCC", "CD", "D", "DC", "DCC", "DCCC", "CM"};
   return U((size_t)(n / 1000), 'M') + asc(h[n / 100 % 10]) + asc(t[n / 10 % 10]) + asc(o[n % 10]);
}
static U hexs(uint64_t x) { char b[20]; snprintf(b, 20, "%llX", (unsigned long long)x); return asc(b); }
static U latin(uint64_t n) { U u; while(n > 0) { uint64_t r = n % 26; n /= 26; if(r == 0) { r = 26; n--; } u.insert(u.begin(), (char16_t)(64 + r)); } return u; }
static void num(int64_t x)
{
   CASE("number %lld", (long long)x);
   String h = Integer::toHexString(x);
   if(val(h) != hexs((uint64_t)x)) fail("toHexString gives %s", CS(val(h)));
   if(Integer::fromHex(h) != x) fail("hexadecimal text read back gives %lld", (long long)Integer::fromHex(h));
   if(Integer::fromHex(h.toLowerCase()) != x) fail("lower case hexadecimal text read back gives %lld", (long long)Integer::fromHex(h.toLowerCase()));
   char b[32]; int d = snprintf(b, 32, "%lld", (long long)x);
   if(Integer::digits(x) != d) fail("digits gives %d, numeral has %d", Integer::digits(x), d);
   if(x >= 0) { String l = Integer::toLatinAlphabetString(x); if(val(l) != latin((uint64_t)x)) fail("toLatinAlphabetString gives %s", CS(val(l))); }
}
static void hexparse(const U& u, uint32_t b, uint32_t n)
{
   CASE("hexadecimal text %s from %u, %u characters", CS(u), b, n);
   uint64_t e = 0; for(uint32_t i = b; i < b + n; i++) { char16_t c = u[i]; e = e * 16 + (uint64_t)(c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 0); }
   String s = mk(u); int64 r = Integer::fromHex(s, b, n);
   if((uint64_t)r != e) fail("fromHex gives %llX instead of %llX", (unsigned long long)r, (unsigned long long)e);
   if(b == 0 && n == u.size() && (uint64_t)Integer::fromHex(s) != e) fail("fromHex of the whole text gives %llX", (unsigned long long)Integer::fromHex(s));
}
void run()
{
   for(int64_t x : edge64()) num(x);
   for(int64_t x = -3000; x <= 60000; x++) num(x);
   for(int64_t x = 0; x <= 12000; x++) { CASE("Roman numeral of %lld", (long long)x); U r = val(Integer::toRomanString(x)); if(r != roman(x)) fail("%s instead of %s", CS(r), CS(roman(x))); }
   for(auto& u : allstr(3, "09afAFg")) for(uint32_t b = 0; b <= u.size(); b++) for(uint32_t n = 0; b + n <= u.size(); n++) hexparse(u, b, n);
   for(int c = 0; c < 256; c++) hexparse(U(u"1") + (char16_t)c, 0, 2);
   { CASE("fromHex beyond the text"); String s("AB"); EXPECT(throws([&] { Integer::fromHex(s, 1, 2); }), "no exception"); }
   { uint64_t p = 26; for(int k = 0; k < 12; k++) { for(int d = -2; d <= 2; d++) num((int64_t)p + d); p = p * 26 + 26; } }
   while(timeleft()) for(int i = 0; i < 500; i++) {
      num(rint64());
      U u; int n = (int)(rnd() % 18); for(int k = 0; k < n; k++) u += (char16_t)"0123456789abcdefABCDEF"[rnd() % 22];
      uint32_t b = (uint32_t)(rnd() % (n + 1)); hexparse(u, b, (uint32_t)(rnd() % (n - b + 1)));
   }
}

#include "vh.h"
// reference encoder (Unicode standard, table 3-6)
static Bytes ref(const U& u)
{
   Bytes b;
   for(char16_t c : u) {
      if(c < 0x80) b.push_back((uint8_t)c);
      else if(c < 0x800) { b.push_back((uint8_t)(0xC0 + c / 64)); b.push_back((uint8_t)(0x80 + c % 64)); }
      else { b.push_back((uint8_t)(0xE0 + c / 4096)); b.push_back((uint8_t)(0x80 + c / 64 % 64)); b.push_back((uint8_t)(0x80 + c % 64)); }
   }
   return b;
}
static Bytes bval(const ByteArray& a) { Bytes r; for(int64 i = 0; i < a.size(); i++) r.push_back((uint8_t)a.constData()[i]); return r; }
static void same(const char* what, const String& s, const U& u)
{
   if(s.size() != (int64)u.size() || val(s) != u) fail("%s gives %s instead of %s", what, CS(val(s)), CS(u));
}
static void round1(const U& u)
{
   CASE("text %s", CS(u));
   ByteArray a = mk(u).toCString(); Bytes e = ref(u);
   if(bval(a) != e) { fail("encoded as %s instead of %s", CS(bval(a)), CS(e)); return; }
   EXPECT(a.constData()[e.size()] == 0, "no terminating zero byte");
   char* x = new char[e.size() + 1]; if(e.size()) memcpy(x, e.data(), e.size()); x[e.size()] = 0;
   same("String(const char*)", String((const char*)x), u);
   same("String(const char*, Charset*)", String((const char*)x, Charset::forName("UTF-8")), u);
   delete[] x;
   char* y = new char[e.size()]; if(e.size()) memcpy(y, e.data(), e.size());
   same("String(const char*, int64)", String((const char*)y, (int64)e.size()), u);
   same("String(const char*, int64, Charset*)", String((const char*)y, (int64)e.size(), Charset::forName("UTF-8")), u);
   delete[] y;
   same("String(const ByteArray&)", String(a), u);
   same("String(const ByteArray&, Charset*)", String(a, Charset::getDefault()), u);
   if(bval(mk(u).toCString(Charset::forName("UTF-8"))) != e) fail("toCString(Charset*) differs");
}
// arbitrary zero terminated bytes: no access behind the terminating zero (the buffer is exactly sized)
static void raw(const Bytes& b)
{
   CASE("decoding the bytes %s", CS(b));
   char* x = new char[b.size() + 1]; if(b.size()) memcpy(x, b.data(), b.size()); x[b.size()] = 0;
   try {
      String s((const char*)x); int64 n = s.size(); unsigned t = 0; EXPECT(n >= 0 && n <= (int64)b.size(), "length %lld", (long long)n);
      for(int64 i = 0; i < n; i++) t += s.charAt(i).unicode();
      if(t == 0x7fffffff) puts("");
   } catch(const Exception&) { if(b.size() < 2 || !((b[0] == 0xFE && b[1] == 0xFF) || (b[0] == 0xFF && b[1] == 0xFE))) fail("throws although no UTF-16 mark is present"); }
   delete[] x;
}
void run()
{
   auto h = vh_hintstrings();
   for(auto& u : h) { Bytes b; U v; for(char16_t c : u) { if((uint8_t)c) b.push_back((uint8_t)c); if(c && (v.size() || c != 0xFEFF) && (c < 0xD800 || c > 0xDFFF)) v += c; } raw(b); round1(v); }
   round1(U());
   for(int c = 1; c < 0x10000; c++) { if(c == 0xFEFF || (c >= 0xD800 && c < 0xE000)) continue; round1(U(1, (char16_t)c)); }
   static const char16_t B[] = {1, 0x41, 0x7F, 0x80, 0xA0, 0xFF, 0x100, 0x7C0, 0x7FF, 0x800, 0x801, 0xFFF, 0x1000, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF, 0xFBFF};
   for(char16_t a : B) for(char16_t b : B) { if(a == 0xFEFF) continue; round1(U{a, b}); for(char16_t c : B) round1(U{a, b, c}); }
   static const uint8_t P[] = {0x41, 0x7F, 0x80, 0xBF, 0xC0, 0xC3, 0xDF, 0xE0, 0xE2, 0xEF, 0xBB, 0xF0, 0xF4, 0xF7, 0xF8, 0xFB, 0xFC, 0xFD, 0xFE, 0xFF};
   raw(Bytes());
   for(uint8_t a : P) { raw(Bytes{a}); for(uint8_t b : P) { raw(Bytes{a, b}); for(uint8_t c : P) { raw(Bytes{a, b, c}); if(!vh_thorough && !coin(3)) continue; for(uint8_t d : P) raw(Bytes{a, b, c, d}); } } }
   for(int n : {14, 15, 16, 17, 255, 256, 1000, 70000}) for(char16_t c : {u'a', u'\u00E4', u'\u20AC'}) round1(U((size_t)n, c));
   while(timeleft()) for(int i = 0; i < 50; i++) {
      U u; int n = (int)(rnd() % 60), m = (int)(rnd() % 4);
      for(int k = 0; k < n; k++) { char16_t c = m == 0 ? (char16_t)rnd() : m == 1 ? (char16_t)(rnd() % 0x900) : m == 2 ? (char16_t)(1 + rnd() % 0x90) : B[rnd() % (sizeof B / 2)]; if(!c || (c >= 0xD800 && c < 0xE000) || (!k && c == 0xFEFF)) c = 0x2C; u += c; }
      round1(u);
      Bytes b; n = (int)(rnd() % 20); for(int k = 0; k < n; k++) { uint8_t c = coin() ? (uint8_t)rnd() : P[rnd() % sizeof P]; b.push_back(c ? c : 1); } raw(b);
   }
}

#include "vh.h"
static Bytes vb(const ByteArray& a) { Bytes b; for(int64 i = 0; i < a.size(); i++) b.push_back(a.get(i)); return b; }
static ByteArray mkb(const Bytes& b) { return ByteArray((const uint8*)b.data(), (int64)b.size()); }
static Bytes rb(int n) { Bytes b; n = (int)(rnd() % (n + 1)); for(int i = 0; i < n; i++) b.push_back(coin() ? (uint8_t)(rnd() % 3) : (uint8_t)rnd()); return b; }
static void same(const ByteArray& a, const Bytes& b, const char* what)
{
   Bytes v = vb(a); if(v != b) fail("%s gives %s instead of %s", what, CS(v), CS(b));
   if(a.isEmpty() != b.empty()) fail("isEmpty after %s", what);
   if(b.size() && a.constData() && memcmp(a.constData(), b.data(), b.size())) fail("constData after %s", what);
   for(size_t i = 0; i < b.size(); i++) if(a[(int64)i] != b[i]) fail("operator[] after %s", what);
}
static void ops(const Bytes& b)
{
   CASE("bytes %s", CS(b));
   ByteArray a = mkb(b); same(a, b, "construction");
   ByteArray s((const int8*)b.data(), (int64)b.size()); same(s, b, "construction from signed bytes");
   ByteArray c(a); same(c, b, "copying"); ByteArray d; d = a; same(d, b, "assignment"); d = d; same(d, b, "self assignment");
   if(!(a == c)) fail("a copy is not equal");
   Bytes z = b; z.push_back(0); Bytes zt(z.begin(), std::find(z.begin(), z.end(), 0));
   ByteArray t((const uint8*)z.data()); same(t, zt, "construction from a text");
   ByteArray t2((const int8*)z.data()); same(t2, zt, "construction from a text");
   if(b.size()) { c.set(0, (uint8)(b[0] + 1)); same(a, b, "changing a copy"); if(a == c) fail("equal to a changed copy"); }
   ByteArray f(a); f.fill(7); same(f, Bytes(b.size(), 7), "fill"); same(a, b, "filling a copy");
   for(int64 n : {(int64)0, (int64)1, (int64)b.size() - 1, (int64)b.size(), (int64)b.size() + 1, (int64)b.size() + 17}) if(n >= 0) { ByteArray r(a); r.resize(n); Bytes e = b; e.resize((size_t)n, 0); same(r, e, "resize"); r.resize((int64)b.size() + 3); e.resize(b.size() + 3, 0); same(r, e, "second resize"); r.resize(2); e.resize(2); same(r, e, "third resize"); }
   ByteArray r(a); r.replace(b.empty() ? 0 : b[0], 9); Bytes e = b; for(auto& x : e) if(x == b[0]) x = 9; same(r, e, "replace of a byte");
}
static void repl(const Bytes& t, const Bytes& s, int64 to, int64 so, int64 n)
{
   CASE("replace in %s at %lld by %s from %lld, %lld bytes", CS(t), (long long)to, CS(s), (long long)so, (long long)n);
   ByteArray a = mkb(t), b = mkb(s); a.replace(to, so, b, n);
   Bytes e = t; if(to >= 0 && so >= 0) for(int64 k = 0; k < n && to + k < (int64)t.size() && so + k < (int64)s.size(); k++) e[(size_t)(to + k)] = s[(size_t)(so + k)];
   same(a, e, "replace"); same(b, s, "replace (source)");
}
static void eq(const Bytes& x, const Bytes& y)
{
   CASE("comparing %s and %s", CS(x), CS(y));
   ByteArray a = mkb(x), b = mkb(y); if((a == b) != (x == y)) fail("operator== gives %d", (int)(a == b));
   ByteArray c(b); c = a; same(c, x, "assignment over other content"); c.set(0 + (x.empty() ? 0 : 0), 0);
}
void run()
{
   { CASE("uninitialised buffer"); ByteArray a; EXPECT(a.isNull() && a.isEmpty() && a.size() == 0, "not empty"); ByteArray b(a); EXPECT(b.size() == 0, "copy not empty"); ByteArray c((const uint8*)"ab", 2); c = a; EXPECT(c.size() == 0, "assigned not empty"); ByteArray d; d.fill(3); d.replace(0, 0, a, 5); d.replace(1, 2); d.resize(3); same(d, Bytes(3, 0), "resize"); ByteArray e; e = d; same(e, Bytes(3, 0), "assignment"); EXPECT(a == b, "empty not equal"); }
   { CASE("filled construction"); for(int n = 0; n < 20; n++) { ByteArray a(n, (uint8)0xAB); same(a, Bytes((size_t)n, 0xAB), "filled construction"); } ByteArray l = {1, 2, 3}; same(l, Bytes{1, 2, 3}, "list construction"); }
   std::vector<Bytes> all = {Bytes()}; for(size_t b = 0, l = 0; l < 4; l++) { size_t e = all.size(); for(; b < e; b++) for(uint8_t c : {0, 1, 255}) { Bytes x = all[b]; x.push_back(c); all.push_back(x); } }
   for(auto& b : all) ops(b);
   for(size_t i = 0; i < all.size() && i < 45; i++) for(size_t j = 0; j < all.size() && j < 45; j++) if(all[i].size()) eq(all[i], all[j]);
   for(int tn = 0; tn < 5; tn++) for(int sn = 0; sn < 5; sn++) for(int64 to : {-1, 0, 1, 2, 3, 4, 5, 9}) for(int64 so : {-1, 0, 1, 2, 3, 4, 5, 9}) for(int64 n : {-1, 0, 1, 2, 3, 4, 7}) {
      Bytes t, s; for(int i = 0; i < tn; i++) t.push_back((uint8_t)(10 + i)); for(int i = 0; i < sn; i++) s.push_back((uint8_t)(100 + i)); repl(t, s, to, so, n);
   }
   for(auto x : intpool(4)) for(auto y : intpool(4)) { repl(Bytes{1, 2, 3, 4}, Bytes{5, 6, 7}, x, y, 2); repl(Bytes{1, 2, 3, 4}, Bytes{5, 6, 7}, 1, x, y); }
   while(timeleft()) for(int i = 0; i < 200; i++) { ops(rb(40)); repl(rb(30), rb(30), ri(-2, 33), ri(-2, 33), ri(-1, 40)); Bytes x = rb(5); if(x.size()) eq(x, coin() ? rb(5) : x); }
}

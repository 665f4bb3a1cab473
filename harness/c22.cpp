#include "vh.h"
typedef __int128 I;
static I fldiv(I x, I y) { I q = x / y; if(x % y != 0 && ((x % y < 0) != (y < 0))) q--; return q; }
static void dm(int64_t x, int64_t y)
{
   CASE("divFloor/modFloor(%lld, %lld)", (long long)x, (long long)y);
   if(y == 0) { EXPECT(modFloor(x, y) == 0, "modFloor by 0"); return; }
   if(!(x == INT64_MIN && y == -1)) { int64_t q = divFloor(x, y); EXPECT(q == (int64_t)fldiv(x, y), "quotient %lld", (long long)q); }
   int64_t r = modFloor(x, y); EXPECT(r == (int64_t)(x - fldiv(x, y) * y), "remainder %lld", (long long)r);
}
static void p2(uint32_t x)
{
   CASE("power of two of %u", x);
   if(x <= INT32_MAX) EXPECT(powerOf2((int32)x) == (__builtin_popcount(x) == 1), "powerOf2 is %d", powerOf2((int32)x));
   if(x >= 0x80000000u) EXPECT(!powerOf2((int32)x), "powerOf2 of a negative number");
   if(x >= 1 && x <= 0x80000000u) { uint64_t e = 1; while(e < x) e *= 2; EXPECT(ceilPowerOf2(x) == (uint32)e, "ceilPowerOf2 is %u", ceilPowerOf2(x)); }
}
template<class T> static void sw(T a, T b)
{
   CASE("swap of %d byte values %.17g %.17g", (int)sizeof(T), (double)a, (double)b);
   T x = a, y = b; jm::swap(x, y); EXPECT(x == b && y == a, "gives %.17g %.17g", (double)x, (double)y);
   jm::swap(x, x); EXPECT(x == b, "swap with itself gives %.17g", (double)x);
}
static void cmp(double a, double b)
{
   CASE("comparison of %.17g and %.17g", a, b);
   long double d = (long double)b - a, e = 1e-6;
   if(std::isnan(a) || std::isnan(b)) { EXPECT(isNaN(a) == !(a == a), "isNaN"); return; }
   if(fabsl(fabsl(d) - e) < 1e-9L * std::max(1.0L, fabsl((long double)a) * 1e-6L) ) return;    // rounding decides
   EXPECT(isEqual(a, b) == (fabsl(d) < e), "isEqual"); EXPECT(isNotEqual(a, b) == !(fabsl(d) < e), "isNotEqual");
   EXPECT(isLess(a, b) == (d >= e), "isLess"); EXPECT(isLessEqual(a, b) == (d > -e), "isLessEqual");
   EXPECT(isGreater(a, b) == (d <= -e), "isGreater"); EXPECT(isGreaterEqual(a, b) == (d < e), "isGreaterEqual");
   EXPECT(!isNaN(a), "isNaN");
}
static void one(double x)
{
   CASE("sign and rounding of %.17g", x);
   EXPECT(sign(x) == (x > 0 ? 1 : x < 0 ? -1 : 0), "sign %d", sign(x));
   if(fabs(x) < 4e18) {
      double t = std::trunc(x); double e = fabs(x - t) >= 0.5 ? t + (x > 0 ? 1 : -1) : t;
      EXPECT(jm::round(x) == (int64)e, "round gives %lld", (long long)jm::round(x));
   }
   if(fabs(x) < 1e12) for(int d = 0; d < 7; d++) { double r = roundFrac(x, (int64)d); EXPECT(fabs(r - x) <= 0.5 * pow(10, -d) * (1 + 1e-9) + fabs(x) * 1e-15, "roundFrac(%d) gives %.17g", d, r); EXPECT(fabs(r * pow(10, d) - nearbyint(r * pow(10, d))) < 1e-6 * std::max(1.0, fabs(x)), "roundFrac(%d) gives %.17g", d, r); }
   if(fabs(x) < 1e100) { EXPECT(fabs(degToRad(x) - x * M_PI / 180) <= 1e-12 * fabs(x), "degToRad"); EXPECT(fabs(radToDeg(x) - x * 180 / M_PI) <= 1e-11 * fabs(x), "radToDeg"); }
}
static void ip(double a, double b, double p)
{
   CASE("interpolate %.17g %.17g %.17g", a, b, p);
   double tol = 1e-12 * (fabs(a) + fabs(b) + 1) * (1 + fabs(p));
   EXPECT(fabs(interpolate(a, b, p) - ((1 - p) * a + p * b)) <= tol, "gives %.17g", interpolate(a, b, p));
   EXPECT(fabs(interpolate((float)a, (float)b, (float)p) - ((1 - p) * a + p * b)) <= tol * 1e9, "float gives %.9g", interpolate((float)a, (float)b, (float)p));
   EXPECT(fabs(interpolate(a, b, 3.0, 7.0, 3 + 4 * p) - ((1 - p) * a + p * b)) <= tol, "gives %.17g", interpolate(a, b, 3.0, 7.0, 3 + 4 * p));
}
void run()
{
   auto E = edge64(); std::vector<double> D = {0, -0.0, 0.5, -0.5, 1.5, 2.5, -1.5, -2.5, 0.49999999999999994, -0.49999999999999994, 4503599627370497.0, 4503599627370495.5, -4503599627370497.0, 9007199254740991.0, 1e-6, -1e-6, 0.99e-6, 1.01e-6, -1.01e-6, 1e-7, 1, 1 + 2e-6, 1 + 5e-7, NAN, 1e300, -1e300, 123456.789, 1e-300};
   for(double h : vh_hf) D.push_back(h);
   for(auto x : E) for(auto y : E) if((uint64_t)(x * 31 + y) % 4 == 0 || (y > -3 && y < 3) || x == INT64_MIN) dm(x, y);
   for(int64_t x = -70; x <= 70; x++) for(int64_t y = -70; y <= 70; y++) dm(x, y);
   for(auto x : E) p2((uint32_t)x);
   for(uint32_t x = 0; x < 70000; x++) p2(x);
   for(auto x : E) for(int k = 0; k < 20; k++) { int64_t y = pick(E); sw((int32)x, (int32)y); sw((uint32)x, (uint32)y); sw((uint16)x, (uint16)y); sw((uint8)x, (uint8)y); sw((double)x, (double)y); }
   for(double a : D) { one(a); for(double b : D) { cmp(a, b); if(fabs(a) < 1e9 && fabs(b) < 1e9) for(double p : {0.0, 1.0, 0.5, 0.25, -1.0, 2.0}) ip(a, b, p); } }
   for(int64_t v = -50; v < 50; v++) for(double f : {-0.5, -0.25, 0.0, 0.25, 0.5, 0.4999999, 0.5000001}) one(v + f);
   for(int i = 0; i < 20000; i++) { int a = (int)ri(-1000, 1000), b = a + (int)ri(0, 50); CASE("random(%d, %d)", a, b); int r = jm::random(a, b); EXPECT(r >= a && r <= b, "gives %d", r); double d = jm::random(); EXPECT(d >= 0 && d <= 1, "random() gives %g", d); }
   { std::set<int> seen; for(int i = 0; i < 20000; i++) seen.insert(jm::random(3, 9)); CASE("random(3,9) reaches all values"); EXPECT(seen.size() == 7, "reached %zu", seen.size()); }
   while(timeleft()) for(int i = 0; i < 200; i++) {
      dm(rint64(), rint64()); p2((uint32_t)rnd()); sw((int32)rnd(), (int32)rnd()); sw((uint16)rnd(), (uint16)rnd());
      double a = (double)rint64() * pow(10, (double)ri(-18, 3)), b = coin() ? (double)rint64() * 1e-9 : a + (double)ri(-300, 300) * 1e-8; one(a); cmp(a, b); if(fabs(a) < 1e9 && fabs(b) < 1e9) ip(a, b, (double)ri(-100, 200) / 100.0);
   }
}

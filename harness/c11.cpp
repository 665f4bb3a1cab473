#include "vh.h"
template<class V, class F> static void put(const char* nm, int nb, bool be, V v, F f, uint32_t off)
{
   uint64_t x = 0; memcpy(&x, &v, sizeof v);
   uint8* b = new uint8[off + nb + 3]; Bytes e; for(uint32_t i = 0; i < off + nb + 3; i++) { b[i] = (uint8)(i * 37 + 11); e.push_back(b[i]); }
   for(int j = 0; j < nb; j++) e[off + j] = (uint8_t)(x >> 8 * (be ? nb - 1 - j : j));
   CASE("serialize%s of %llX at %u", nm, (unsigned long long)x, off);
   int r = f(b, off, v);
   Bytes g(b, b + off + nb + 3); if(g != e) fail("buffer is %s instead of %s", CS(g), CS(e));
   if(r != nb) fail("returns %d", r);
   delete[] b;
}
template<class V, class F> static void get(const char* nm, int nb, bool be, uint64_t x, F f, uint32_t off)
{
   uint8* b = new uint8[off + nb]; for(uint32_t i = 0; i < off; i++) b[i] = (uint8)(i * 37 + 11);
   for(int j = 0; j < nb; j++) b[off + j] = (uint8_t)(x >> 8 * (be ? nb - 1 - j : j));
   CASE("deserialize%s of %llX at %u", nm, (unsigned long long)x, off);
   V v = f(b, off, (int64)(off + nb)); V w; memcpy(&w, &x, sizeof w);
   if(memcmp(&v, &w, sizeof v)) { uint64_t y = 0; memcpy(&y, &v, sizeof v); fail("gives %llX", (unsigned long long)y); }
   delete[] b;
}
#define PUT(N, T, nb, be) put<T>(#N, nb, be, (T)x, [](uint8* b, uint32 o, T v) { return serialize##N(b, o, v); }, off)
#define GET(N, T, nb, be) get<T>(#N, nb, be, x, [](uint8* b, uint32 o, int64) { return deserialize##N(b, o); }, off)
#define GEB(N, T, nb, be) get<T>(#N "(ByteArray)", nb, be, x, [](uint8* b, uint32 o, int64 n) { ByteArray a((const uint8*)b, n); return deserialize##N(a, o); }, off)
static void all(uint64_t x, uint32_t off)
{
   PUT(BEInt16, int16, 2, true); PUT(BEInt24, int32, 3, true); PUT(BEInt32, int32, 4, true); PUT(BEInt64, int64, 8, true);
   PUT(LEInt16, int16, 2, false); PUT(LEUInt16, uint16, 2, false); PUT(LEInt24, int32, 3, false); PUT(LEInt32, int32, 4, false); PUT(LEInt64, int64, 8, false);
   double d; memcpy(&d, &x, 8); float f; memcpy(&f, &x, 4);
   if(d == d) put<double>("LEDouble", 8, false, d, [](uint8* b, uint32 o, double v) { return serializeLEDouble(b, o, v); }, off);
   if(f == f) put<float>("LEFloat", 4, false, f, [](uint8* b, uint32 o, float v) { return serializeLEFloat(b, o, v); }, off);
   GET(BEUInt16, uint16, 2, true); GET(BEInt16, int16, 2, true); GET(BEUInt32, uint32, 4, true); GET(BEInt64, int64, 8, true);
   GET(LEUInt16, uint16, 2, false); GET(LEInt16, int16, 2, false); GET(LEUInt32, uint32, 4, false); GET(LEInt32, int32, 4, false); GET(LEInt64, int64, 8, false);
   GEB(BEInt16, int16, 2, true); GEB(BEUInt32, uint32, 4, true); GEB(BEInt32, int32, 4, true); GEB(BEInt64, int64, 8, true);
   GEB(LEUInt16, uint16, 2, false); GEB(LEInt16, int16, 2, false); GEB(LEUInt32, uint32, 4, false); GEB(LEInt32, int32, 4, false); GEB(LEInt64, int64, 8, false);
   if(d == d) { GET(LEDouble, double, 8, false); GEB(LEDouble, double, 8, false); }
   if(f == f) GET(LEFloat, float, 4, false);
}
void run()
{
   for(int64_t x : edge64()) all((uint64_t)x, (uint32_t)(x & 7));
   for(int b = 0; b < 8; b++) for(int v = 0; v < 256; v++) { all((uint64_t)v << 8 * b, 3); all(~((uint64_t)v << 8 * b), 0); }
   while(timeleft()) for(int i = 0; i < 200; i++) all(rnd(), (uint32_t)(rnd() % 20));
}

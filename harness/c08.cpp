#include "vh.h"
static std::string ref(const Bytes& b)
{
   static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
   std::string s; size_t i = 0;
   for(; i + 3 <= b.size(); i += 3) { uint32_t v = b[i] << 16 | b[i + 1] << 8 | b[i + 2]; s += A[v >> 18]; s += A[v >> 12 & 63]; s += A[v >> 6 & 63]; s += A[v & 63]; }
   if(b.size() - i == 1) { uint32_t v = b[i] << 16; s += A[v >> 18]; s += A[v >> 12 & 63]; s += "=="; }
   if(b.size() - i == 2) { uint32_t v = b[i] << 16 | b[i + 1] << 8; s += A[v >> 18]; s += A[v >> 12 & 63]; s += A[v >> 6 & 63]; s += "="; }
   return s;
}
static void one(const Bytes& b)
{
   CASE("bytes %s", CS(b));
   uint8* in = new uint8[b.size()]; if(b.size()) memcpy(in, b.data(), b.size());
   int64 n = (int64)b.size();
   uint8* t = Base64::encode(in, n);
   std::string e = ref(b);
   if(n != (int64)e.size() || memcmp(t, e.data(), e.size())) fail("encoded text of length %lld is not %s", (long long)n, e.c_str());
   uint8* tx = new uint8[e.size()]; memcpy(tx, e.data(), e.size());
   uint32 l = (uint32)e.size();
   uint8* d = Base64::decode(tx, l);
   if(l != b.size()) fail("decoding %s gives %u bytes", e.c_str(), l);
   else if(l && memcmp(d, b.data(), l)) fail("decoding %s gives %s", e.c_str(), CS(Bytes(d, d + l)));
   delete[] in; delete[] t; delete[] tx; delete[] d;
}
static void raw(const Bytes& b)
{
   CASE("decoding the bytes %s", CS(b));
   uint8* tx = new uint8[b.size()]; if(b.size()) memcpy(tx, b.data(), b.size());
   uint32 l = (uint32)b.size(); uint8* d = Base64::decode(tx, l);
   uint32_t x = 0; for(uint32_t i = 0; i < l; i++) x += d[i];
   EXPECT(l <= (b.size() + 3) / 4 * 3, "length %u %u", l, x);
   delete[] tx; delete[] d;
}
void run()
{
   one(Bytes());
   for(int a = 0; a < 256; a++) { one(Bytes{(uint8_t)a}); for(int b = 0; b < 256; b++) one(Bytes{(uint8_t)a, (uint8_t)b}); }
   for(int p = 0; p < 3; p++) for(int a = 0; a < 256; a++) for(int b = 0; b < 256; b++) { Bytes x{(uint8_t)(a ^ 0x5A), (uint8_t)a, (uint8_t)b}; std::rotate(x.begin(), x.begin() + p, x.end()); one(x); }
   for(int n = 0; n < 300; n++) { Bytes b; for(int i = 0; i < n; i++) b.push_back((uint8_t)rnd()); one(b); }
   while(timeleft()) for(int i = 0; i < 200; i++) {
      Bytes b; int n = (int)(rnd() % 200); int m = (int)(rnd() % 3); for(int k = 0; k < n; k++) b.push_back(m == 0 ? (uint8_t)rnd() : m == 1 ? 0 : 255); one(b);
      Bytes r; n = (int)(rnd() % 30); for(int k = 0; k < n; k++) r.push_back(coin(3) ? (uint8_t)rnd() : (uint8_t)"ABab01+/=\n"[rnd() % 10]); raw(r);
   }
}

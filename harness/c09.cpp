#include "vh.h"
static uint16_t ref(uint16_t x, const Bytes& b) { for(uint8_t c : b) { x ^= c; for(int i = 0; i < 8; i++) x = x & 1 ? (uint16_t)(x >> 1 ^ 0xA001) : (uint16_t)(x >> 1); } return x; }
static void one(uint16_t x, const Bytes& b)
{
   CASE("start value %u, bytes %s", x, CS(b));
   uint8* p = new uint8[b.size()]; if(b.size()) memcpy(p, b.data(), b.size());
   uint16 r = CRC::crc8(x, p, (uint32)b.size());
   if(r != ref(x, b)) fail("gives %04X instead of %04X", r, ref(x, b));
   if(b.size() && memcmp(p, b.data(), b.size())) fail("the bytes were changed");
   delete[] p;
}
void run()
{
   one(0, Bytes{'1', '2', '3', '4', '5', '6', '7', '8', '9'}); EXPECT(ref(0, Bytes{'1', '2', '3', '4', '5', '6', '7', '8', '9'}) == 0xBB3D, "oracle");
   for(int x = 0; x < 65536; x++) { one((uint16_t)x, Bytes()); one((uint16_t)x, Bytes{(uint8_t)(x * 7)}); }
   for(int a = 0; a < 256; a++) for(int b = 0; b < 256; b++) one(0, Bytes{(uint8_t)a, (uint8_t)b});
   for(int n : {255, 256, 257, 65535, 65536, 65537, 70000}) { Bytes b; for(int i = 0; i < n; i++) b.push_back((uint8_t)rnd()); one(0xFFFF, b); }
   while(timeleft()) for(int i = 0; i < 200; i++) { Bytes b; int n = (int)(rnd() % 100); for(int k = 0; k < n; k++) b.push_back((uint8_t)rnd()); one((uint16_t)rnd(), b); }
}

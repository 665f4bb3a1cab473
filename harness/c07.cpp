#include "vh.h"
static const uint16_t W[256] = {0x0,0x1,0x2,0x3,0x4,0x5,0x6,0x7,0x8,0x9,0xa,0xb,0xc,0xd,0xe,0xf,0x10,0x11,0x12,0x13,0x14,0x15,0x16,0x17,0x18,0x19,0x1a,0x1b,0x1c,0x1d,0x1e,0x1f,0x20,0x21,0x22,0x23,0x24,0x25,0x26,0x27,0x28,0x29,0x2a,0x2b,0x2c,0x2d,0x2e,0x2f,0x30,0x31,0x32,0x33,0x34,0x35,0x36,0x37,0x38,0x39,0x3a,0x3b,0x3c,0x3d,0x3e,0x3f,0x40,0x41,0x42,0x43,0x44,0x45,0x46,0x47,0x48,0x49,0x4a,0x4b,0x4c,0x4d,0x4e,0x4f,0x50,0x51,0x52,0x53,0x54,0x55,0x56,0x57,0x58,0x59,0x5a,0x5b,0x5c,0x5d,0x5e,0x5f,0x60,0x61,0x62,0x63,0x64,0x65,0x66,0x67,0x68,0x69,0x6a,0x6b,0x6c,0x6d,0x6e,0x6f,0x70,0x71,0x72,0x73,0x74,0x75,0x76,0x77,0x78,0x79,0x7a,0x7b,0x7c,0x7d,0x7e,0x7f,0x20ac,0x0,0x201a,0x192,0x201e,0x2026,0x2020,0x2021,0x2c6,0x2030,0x160,0x2039,0x152,0x0,0x17d,0x0,0x0,0x2018,0x2019,0x201c,0x201d,0x2022,0x2013,0x2014,0x2dc,0x2122,0x161,0x203a,0x153,0x0,0x17e,0x178,0xa0,0xa1,0xa2,0xa3,0xa4,0xa5,0xa6,0xa7,0xa8,0xa9,0xaa,0xab,0xac,0xad,0xae,0xaf,0xb0,0xb1,0xb2,0xb3,0xb4,0xb5,0xb6,0xb7,0xb8,0xb9,0xba,0xbb,0xbc,0xbd,0xbe,0xbf,0xc0,0xc1,0xc2,0xc3,0xc4,0xc5,0xc6,0xc7,0xc8,0xc9,0xca,0xcb,0xcc,0xcd,0xce,0xcf,0xd0,0xd1,0xd2,0xd3,0xd4,0xd5,0xd6,0xd7,0xd8,0xd9,0xda,0xdb,0xdc,0xdd,0xde,0xdf,0xe0,0xe1,0xe2,0xe3,0xe4,0xe5,0xe6,0xe7,0xe8,0xe9,0xea,0xeb,0xec,0xed,0xee,0xef,0xf0,0xf1,0xf2,0xf3,0xf4,0xf5,0xf6,0xf7,0xf8,0xf9,0xfa,0xfb,0xfc,0xfd,0xfe,0xff};
static const uint16_t M[256] = {0x0,0x1,0x2,0x3,0x4,0x5,0x6,0x7,0x8,0x9,0xa,0xb,0xc,0xd,0xe,0xf,0x10,0x11,0x12,0x13,0x14,0x15,0x16,0x17,0x18,0x19,0x1a,0x1b,0x1c,0x1d,0x1e,0x1f,0x20,0x21,0x22,0x23,0x24,0x25,0x26,0x27,0x28,0x29,0x2a,0x2b,0x2c,0x2d,0x2e,0x2f,0x30,0x31,0x32,0x33,0x34,0x35,0x36,0x37,0x38,0x39,0x3a,0x3b,0x3c,0x3d,0x3e,0x3f,0x40,0x41,0x42,0x43,0x44,0x45,0x46,0x47,0x48,0x49,0x4a,0x4b,0x4c,0x4d,0x4e,0x4f,0x50,0x51,0x52,0x53,0x54,0x55,0x56,0x57,0x58,0x59,0x5a,0x5b,0x5c,0x5d,0x5e,0x5f,0x60,0x61,0x62,0x63,0x64,0x65,0x66,0x67,0x68,0x69,0x6a,0x6b,0x6c,0x6d,0x6e,0x6f,0x70,0x71,0x72,0x73,0x74,0x75,0x76,0x77,0x78,0x79,0x7a,0x7b,0x7c,0x7d,0x7e,0x7f,0xc4,0xc5,0xc7,0xc9,0xd1,0xd6,0xdc,0xe1,0xe0,0xe2,0xe4,0xe3,0xe5,0xe7,0xe9,0xe8,0xea,0xeb,0xed,0xec,0xee,0xef,0xf1,0xf3,0xf2,0xf4,0xf6,0xf5,0xfa,0xf9,0xfb,0xfc,0x2020,0xb0,0xa2,0xa3,0xa7,0x2022,0xb6,0xdf,0xae,0xa9,0x2122,0xb4,0xa8,0x2260,0xc6,0xd8,0x221e,0xb1,0x2264,0x2265,0xa5,0xb5,0x2202,0x2211,0x220f,0x3c0,0x222b,0xaa,0xba,0x3a9,0xe6,0xf8,0xbf,0xa1,0xac,0x221a,0x192,0x2248,0x2206,0xab,0xbb,0x2026,0xa0,0xc0,0xc3,0xd5,0x152,0x153,0x2013,0x2014,0x201c,0x201d,0x2018,0x2019,0xf7,0x25ca,0xff,0x178,0x2044,0x20ac,0x2039,0x203a,0xfb01,0xfb02,0x2021,0xb7,0x201a,0x201e,0x2030,0xc2,0xca,0xc1,0xcb,0xc8,0xcd,0xce,0xcf,0xcc,0xd3,0xd4,0xf8ff,0xd2,0xda,0xdb,0xd9,0x131,0x2c6,0x2dc,0xaf,0x2d8,0x2d9,0x2da,0xb8,0x2dd,0x2db,0x2c7};
static Bytes bval(const ByteArray& a) { Bytes r; for(int64 i = 0; i < a.size(); i++) r.push_back((uint8_t)a.constData()[i]); return r; }
// decodes through every entry point
static void dec(const char* name, const Bytes& b, const U& e)
{
   Charset* cs = Charset::forName(name); if(!cs) { fail("no character set %s", name); return; }
   char* x = new char[b.size() + 2]; if(b.size()) memcpy(x, b.data(), b.size()); x[b.size()] = x[b.size() + 1] = 0;
   U v = val(String((const char*)x, cs)); if(v != e) fail("%s: String(const char*, Charset*) gives %s instead of %s", name, CS(v), CS(e));
   delete[] x;
   char* y = new char[b.size()]; if(b.size()) memcpy(y, b.data(), b.size());
   v = val(String((const char*)y, (int64)b.size(), cs)); if(v != e) fail("%s: String(const char*, int64, Charset*) gives %s instead of %s", name, CS(v), CS(e));
   ByteArray a((int64)b.size(), 0); for(size_t i = 0; i < b.size(); i++) a[(int64)i] = (int8)b[i];
   v = val(String(a, cs)); if(v != e) fail("%s: String(const ByteArray&, Charset*) gives %s instead of %s", name, CS(v), CS(e));
   delete[] y;
}
static void enc(const char* name, const U& u, const Bytes& e)
{
   Charset* cs = Charset::forName(name); if(!cs) { fail("no character set %s", name); return; }
   Bytes v = bval(mk(u).toCString(cs)); if(v != e) fail("%s: toCString(Charset*) gives %s instead of %s", name, CS(v), CS(e));
}
struct Page { const char* name; const uint16_t* t; };
static Page pages[2] = {{"Windows-1252", W}, {"MacRoman", M}};
static uint8_t back(const Page& p, uint16_t c)
{
   if(!c) return 0;
   if(p.t == M && c == 0xA4) return 0xDB;       // documented replacement: currency sign
   for(int i = 0; i < 256; i++) if(p.t[i] == c) return (uint8_t)i;
   return 0;
}
static std::map<uint16_t, uint8_t> inv[2];
static void page(int k, const Bytes& b)
{
   const Page& p = pages[k]; CASE("%s bytes %s", p.name, CS(b));
   U e; bool defined = true; for(uint8_t x : b) { e += (char16_t)p.t[x]; if(!p.t[x]) defined = false; }
   dec(p.name, b, e);
   if(defined) enc(p.name, e, b);
}
static void text(int k, const U& u)
{
   const Page& p = pages[k]; CASE("%s text %s", p.name, CS(u));
   Bytes e; for(char16_t c : u) { auto i = inv[k].find(c); e.push_back(i == inv[k].end() ? 0 : i->second); }
   enc(p.name, u, e);
}
static bool marked(const U& u) { return u.size() && (u[0] == 0xFEFF || u[0] == 0xFFFE); }
static void utf16(const U& u)
{
   for(int be = 0; be < 2; be++) {
      const char* name = be ? "UTF-16BE" : "UTF-16LE"; CASE("%s text %s", name, CS(u));
      Bytes e; for(char16_t c : u) { e.push_back((uint8_t)(be ? c >> 8 : c)); e.push_back((uint8_t)(be ? c : c >> 8)); }
      enc(name, u, e);
      if(marked(u) || (e.size() > 2 && e[0] == 0xEF && e[1] == 0xBB && e[2] == 0xBF)) continue;
      dec(name, e, u);
      // a leading byte order mark decides the order
      Bytes m{0xFE, 0xFF}; for(char16_t c : u) { m.push_back((uint8_t)(c >> 8)); m.push_back((uint8_t)c); } dec(name, m, u);
      Bytes l{0xFF, 0xFE}; for(char16_t c : u) { l.push_back((uint8_t)c); l.push_back((uint8_t)(c >> 8)); } dec(name, l, u);
   }
}
static void raw(const Bytes& b)
{
   for(const char* n : {"RAW", "ASCII"}) { CASE("%s bytes %s", n, CS(b)); U u; for(uint8_t c : b) u += (char16_t)c; dec(n, b, u); enc(n, u, b); }
}
void run()
{
   for(int k = 0; k < 2; k++) for(int c = 1; c < 0x10000; c++) { uint8_t b = back(pages[k], (uint16_t)c); if(b) inv[k][(uint16_t)c] = b; }
   for(auto& u : vh_hintstrings()) {
      Bytes b; U v; for(char16_t c : u) { if((uint8_t)c) b.push_back((uint8_t)c); if(c) v += c; }
      page(0, b); page(1, b); raw(b); text(0, v); text(1, v); utf16(v);
   }
   for(int k = 0; k < 2; k++) { page(k, Bytes()); for(int a = 1; a < 256; a++) { page(k, Bytes{(uint8_t)a}); page(k, Bytes{'x', (uint8_t)a, 'y'}); } for(int c = 1; c < 0x10000; c++) text(k, U(1, (char16_t)c)); }
   for(int a = 1; a < 256; a++) raw(Bytes{(uint8_t)a});
   utf16(U());
   for(int c = 1; c < 0x10000; c++) utf16(U(1, (char16_t)c));
   for(int n : {15, 16, 17, 255, 256, 70000}) { page(0, Bytes((size_t)n, 0xE4)); page(1, Bytes((size_t)n, 0x8A)); utf16(U((size_t)n, u'\u00E4')); utf16(U((size_t)n, u'\u0100')); }
   while(timeleft()) for(int i = 0; i < 50; i++) {
      Bytes b; int n = (int)(rnd() % 40); for(int j = 0; j < n; j++) b.push_back((uint8_t)(1 + rnd() % 255)); page(0, b); page(1, b); raw(b);
      U u; n = (int)(rnd() % 40); for(int j = 0; j < n; j++) { char16_t c = coin() ? (char16_t)rnd() : coin() ? (char16_t)W[rnd() % 256] : (char16_t)M[rnd() % 256]; if(coin(6)) c &= 0xFF00; if(!c) c = 1; u += c; }
      utf16(u); text(0, u); text(1, u);
   }
}

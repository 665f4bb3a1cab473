// random / exhaustive machine over String edits, with std::u16string as the oracle
#pragma once
#include "vh.h"
static char16_t lo(char16_t c) { return (c >= 'A' && c <= 'Z') || c == 0xC4 || c == 0xD6 || c == 0xDC ? c + 32 : c; }
static char16_t up(char16_t c) { return (c >= 'a' && c <= 'z') || c == 0xE4 || c == 0xF6 || c == 0xFC ? c - 32 : c; }
static bool sp(char16_t c) { return c == 0x20 || c == 9 || c == 10 || c == 13 || c == 8 || c == 12; }
static U otrim(const U& s) { size_t a = 0, b = s.size(); while(a < b && sp(s[a])) a++; while(b > a && sp(s[b - 1])) b--; return s.substr(a, b - a); }
static U osub(const U& s, int64_t b, int64_t e) { int64_t n = (int64_t)s.size(); if(b < 0) b = 0; if(e < b) e = b; if(e > n) e = n; return b >= e ? U() : s.substr(b, e - b); }
static U orepl(const U& s, const U& a, const U& b) { if(a.empty()) return s; U r; size_t p = 0, q; while((q = s.find(a, p)) != U::npos) { r += s.substr(p, q - p) + b; p = q + a.size(); } return r + s.substr(p); }
static U omap(const U& s, char16_t (*f)(char16_t)) { U r; for(char16_t c : s) r += f(c); return r; }

struct Slots {
   std::vector<String*> s; std::vector<U> m;
   Slots(int n) { for(int i = 0; i < n; i++) { s.push_back(new String()); m.push_back(U()); } }
   ~Slots() { for(String* x : s) delete x; }
};
enum { NOPS = 26 };
// applies operation op to slot i with other slot j and parameters; returns false when op is not applicable
static void strop(Slots& w, int op, int i, int j, int64_t p, int64_t q, char16_t c, char16_t d)
{
   String& S = *w.s[i]; String& O = *w.s[j]; U& m = w.m[i]; U o = w.m[j]; int64_t n = (int64_t)m.size();
   CASE("op %d on s%d=%s other s%d=%s p=%lld q=%lld c=%04X d=%04X", op, i, CS(m), j, CS(o), (long long)p, (long long)q, c, d);
   switch(op) {
      case 0: S.append(O); m += o; break;
      case 1: S.append(Char(c)); m += c; break;
      case 2: { bool t = throws([&] { S.insert(p, Char(c)); }); bool e = p < 0 || p > n; EXPECT(t == e, "exception %d expected %d", t, e); if(!e) m.insert(m.begin() + p, c); break; }
      case 3: { bool t = throws([&] { S.insert(p, O); }); bool e = p < 0 || p > n; EXPECT(t == e, "exception %d expected %d", t, e); if(!e) m.insert((size_t)p, o); break; }
      case 4: { bool t = throws([&] { S.deleteCharAt(p); }); bool e = p < 0 || p >= n; EXPECT(t == e, "exception %d expected %d", t, e); if(!e) m.erase((size_t)p, 1); break; }
      case 5: { bool t = throws([&] { S.deleteCharRangeAt(p, q); }); bool e = p < 0 || p > n || q < 0; EXPECT(t == e, "exception %d expected %d", t, e); if(!e) m.erase((size_t)p, (size_t)q); break; }
      case 6: { bool t = throws([&] { S.setCharAt(p, Char(c)); }); bool e = p < 0 || p >= n; EXPECT(t == e, "exception %d expected %d", t, e); if(!e) m[p] = c; break; }
      case 7: { Char r; bool t = throws([&] { r = S.charAt(p); }); bool e = p < 0 || p >= n; EXPECT(t == e, "exception %d expected %d", t, e); if(!e) EXPECT(r.unicode() == m[p], "charAt %04X", r.unicode()); break; }
      case 8: S = O; m = o; break;
      case 9: S += O; m += o; break;
      case 10: { String r = S + O; EXPECT(val(r) == m + o, "got %s", CS(val(r))); *w.s[j] = r; w.m[j] = m + o; break; }
      case 11: S << O; m += o; break;
      case 12: { String r = O.toLowerCase(); U e = omap(o, lo); EXPECT(val(r) == e, "got %s", CS(val(r))); S = r; m = e; break; }
      case 13: { String r = O.toUpperCase(); U e = omap(o, up); EXPECT(val(r) == e, "got %s", CS(val(r))); S = r; m = e; break; }
      case 14: { String r = O.substring(p, q); U e = osub(o, p, q); EXPECT(val(r) == e, "got %s expected %s", CS(val(r)), CS(e)); S = r; m = e; break; }
      case 15: { String r = O.substring(p); U e = osub(o, p, (int64_t)o.size()); EXPECT(val(r) == e, "got %s expected %s", CS(val(r)), CS(e)); S = r; m = e; break; }
      case 16: { String r = O.trim(); U e = otrim(o); EXPECT(val(r) == e, "got %s expected %s", CS(val(r)), CS(e)); S = r; m = e; break; }
      case 17: { String r = O.reverse(); U e(o.rbegin(), o.rend()); EXPECT(val(r) == e, "got %s expected %s", CS(val(r)), CS(e)); S = r; m = e; break; }
      case 18: { String r = O.replace(Char(c), Char(d)); U e = o; for(auto& x : e) if(x == c) x = d; EXPECT(val(r) == e, "got %s expected %s", CS(val(r)), CS(e)); S = r; m = e; break; }
      case 19: { int k = (int)(rnd() % w.s.size()); U z = w.m[k]; int k2 = (int)(rnd() % w.s.size()); U y = w.m[k2];
                 if(coin()) { y = o.size() ? o.substr(rnd() % o.size(), 1 + rnd() % 3) : y; String ys = mk(y); String r = O.replace(ys, *w.s[k]); U e = orepl(o, y, z); if(e.size() < 4000) { EXPECT(val(r) == e, "replace %s by %s got %s expected %s", CS(y), CS(z), CS(val(r)), CS(e)); S = r; m = e; } }
                 else { String r = O.replace(*w.s[k2], *w.s[k]); U e = orepl(o, y, z); EXPECT(val(r) == e, "replace %s by %s got %s expected %s", CS(y), CS(z), CS(val(r)), CS(e)); if(e.size() < 4000) { S = r; m = e; } } break; }
      case 20: S.clear(); m.clear(); break;
      case 21: S.zero(); m.clear(); break;
      case 22: { delete w.s[i]; if(i == j) { w.s[i] = new String(); m.clear(); } else { w.s[i] = new String(O); m = o; } break; }
      case 23: { delete w.s[i]; U z = rstr(40); w.s[i] = new String((const uint16*)z.data(), (int64)z.size()); m = z; break; }
      case 24: S << Char(c); m += c; break;
      case 25: S << (char)(c & 0x7F); m += (char16_t)(c & 0x7F); break;
   }
   for(size_t k = 0; k < w.s.size(); k++) {
      U g = val(*w.s[k]);
      if(g != w.m[k]) { fail("string s%d is %s expected %s", (int)k, CS(g), CS(w.m[k])); delete w.s[k]; w.s[k] = new String(mk(w.m[k])); }
   }
}
static int64_t rpos(int64_t n)
{
   if(vh_hi.size() && coin(6)) return pick(vh_hi);
   switch(rnd() % 12) { case 0: return 0; case 1: return n; case 2: return n - 1; case 3: return n + 1; case 4: return -1; case 5: { auto v = intpool(n); return pick(v); } default: return n ? (int64_t)(rnd() % n) : 0; }
}

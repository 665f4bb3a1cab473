#include "str_ops.h"
static int64_t ofirst(const U& t, const U& s, int64_t f) { if(f < 0) f = 0; for(int64_t a = f; a <= (int64_t)t.size() - (int64_t)s.size(); a++) if(t.compare(a, s.size(), s) == 0) return a; return -1; }
static int64_t olast(const U& t, const U& s, int64_t f) { int64_t m = (int64_t)t.size() - (int64_t)s.size(); if(f > m) f = m; for(int64_t a = f; a >= 0; a--) if(t.compare(a, s.size(), s) == 0) return a; return -1; }
static int sgn(int64_t x) { return x < 0 ? -1 : x > 0; }
static void cmp(const U& a, const U& b, bool same = false)
{
   CASE("compare %s with %s", CS(a), CS(b));
   String A = mk(a); String B0 = mk(b); String& B = same ? A : B0;
   EXPECT(A.equals(B) == (a == b), "equals %d", A.equals(B));
   EXPECT((A == B) == (a == b), "operator== %d", A == B);
   EXPECT((A != B) == (a != b), "operator!= %d", A != B);
   EXPECT(A.equals((const Object*)&B) == (a == b), "equals(Object*)");
   EXPECT(A.equalsIgnoreCase(B) == (omap(a, lo) == omap(b, lo)), "equalsIgnoreCase %d", A.equalsIgnoreCase(B));
   EXPECT(sgn(A.compareTo(B)) == sgn(a.compare(b)), "compareTo %d expected %d", A.compareTo(B), sgn(a.compare(b)));
   EXPECT((A < B) == (a < b), "operator< %d", A < B);
   EXPECT(A.startsWith(B) == (a.size() >= b.size() && a.compare(0, b.size(), b) == 0), "startsWith %d", A.startsWith(B));
   EXPECT(A.endsWith(B) == (a.size() >= b.size() && a.compare(a.size() - b.size(), b.size(), b) == 0), "endsWith %d", A.endsWith(B));
   EXPECT(A.indexOf(B) == ofirst(a, b, 0), "indexOf %lld expected %lld", (long long)A.indexOf(B), (long long)ofirst(a, b, 0));
   { int64_t e = olast(a, b, (int64_t)a.size() - 1); EXPECT(A.lastIndexOf(B) == e, "lastIndexOf %lld expected %lld", (long long)A.lastIndexOf(B), (long long)e); }
   EXPECT(val(A) == a && (same || val(B) == b), "an argument was changed");
}
static void at(const U& a, const U& b, int64_t p)
{
   CASE("position %lld: %s and %s", (long long)p, CS(a), CS(b));
   String A = mk(a), B = mk(b); int64_t n = (int64_t)a.size(), m = (int64_t)b.size();
   bool in = p >= 0 && p <= n - m;
   EXPECT(A.atIs(p, B) == (in && a.compare(p, m, b) == 0), "atIs %d", A.atIs(p, B));
   EXPECT(A.atIsIgnoreCase(p, B) == (in && omap(a, lo).compare(p, m, omap(b, lo)) == 0), "atIsIgnoreCase %d", A.atIsIgnoreCase(p, B));
   EXPECT(A.indexOf(B, p) == ofirst(a, b, p), "indexOf from: %lld expected %lld", (long long)A.indexOf(B, p), (long long)ofirst(a, b, p));
   EXPECT(A.lastIndexOf(B, p) == olast(a, b, p), "lastIndexOf from: %lld expected %lld", (long long)A.lastIndexOf(B, p), (long long)olast(a, b, p));
}
static void chr(const U& a, char16_t c, int64_t p)
{
   CASE("character %04X in %s from %lld", c, CS(a), (long long)p);
   String A = mk(a); U s(1, c); int64_t n = (int64_t)a.size();
   EXPECT(A.indexOf(Char(c)) == ofirst(a, s, 0), "indexOf %lld", (long long)A.indexOf(Char(c)));
   EXPECT(A.indexOf(Char(c), p) == ofirst(a, s, p), "indexOf from %lld", (long long)A.indexOf(Char(c), p));
   EXPECT(A.lastIndexOf(Char(c)) == olast(a, s, n - 1), "lastIndexOf %lld", (long long)A.lastIndexOf(Char(c)));
   int64_t r = -2; bool t = throws([&] { r = A.lastIndexOf(Char(c), p); });
   EXPECT(t == (p >= n), "lastIndexOf exception %d", t);
   if(!t) EXPECT(r == olast(a, s, p < 0 ? 0 : p), "lastIndexOf from: %lld", (long long)r);
   int64_t k = 0; for(char16_t x : a) k += x == c;
   EXPECT(A.count(Char(c)) == k, "count %lld expected %lld", (long long)A.count(Char(c)), (long long)k);
}
static void all(const U& a, const U& b)
{
   cmp(a, b);
   std::set<int64_t> ps; for(int64_t x : intpool((int64_t)a.size())) ps.insert(x); for(int64_t x = -1; x < 6; x++) ps.insert(x); ps.insert((int64_t)a.size() - (int64_t)b.size());
   for(int64_t p : ps) { at(a, b, p); chr(a, b.empty() ? 'a' : b[0], p); }
}
void run()
{
   auto h = vh_hintstrings();
   for(auto& a : h) { cmp(a, a, true); for(auto& b : h) all(a, b); all(a, U()); all(U(), a); }
   std::vector<U> v = allstr(4), p = allstr(3);
   for(auto& a : v) for(auto& b : p) all(a, b);
   for(auto& a : v) for(auto& b : v) cmp(a, b);
   for(auto& a : v) cmp(a, a, true);
   { U u; std::vector<U> cs; for(int c = 0; c < 65536; c += (c < 0x180 ? 1 : 251)) cs.push_back(U(1, (char16_t)c)); for(auto& a : cs) for(auto& b : cs) if(a[0] < 0x180 || coin(8)) { CASE("compare %s %s", CS(a), CS(b)); String A = mk(a), B = mk(b); if(sgn(A.compareTo(B)) != sgn(a.compare(b)) || A.equalsIgnoreCase(B) != (lo(a[0]) == lo(b[0])) || (A < B) != (a < b)) cmp(a, b); if(!timeleft(0.5)) break; } }
   while(timeleft()) {
      U a = rstr(coin(5) ? 200 : 24, 2 + (int)(rnd() % 6)), b = rstr(6, 2 + (int)(rnd() % 3));
      if(a.size() && coin()) { size_t k = rnd() % a.size(); b = a.substr(k, 1 + rnd() % 8); }
      if(coin(4)) { b = a; if(b.size() && coin()) b[rnd() % b.size()] ^= (char16_t)(1 << (rnd() % 16)); if(coin(3)) b += 'x'; else if(b.size() && coin(3)) b.pop_back(); }
      cmp(a, b); at(a, b, ri(-2, (int64_t)a.size() + 2)); chr(a, a.empty() ? 'a' : pick(std::vector<char16_t>(a.begin(), a.end())), ri(-2, (int64_t)a.size() + 2));
      chr(a, 'Q', ri(-2, (int64_t)a.size() + 2));
   }
}

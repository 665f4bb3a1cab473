#include "vh.h"
typedef std::vector<U> LU;
static std::string showl(const LU& v) { std::string s = "["; for(auto& u : v) s += (s.size() > 1 ? ", " : "") + show(u); return s + "]"; }
static U ujoin(const LU& v, char16_t d) { U r; for(size_t i = 0; i < v.size(); i++) { if(i) r += d; r += v[i]; } return r; }
static void same(StringList& l, const LU& m, const char* what)
{
   if(l.size() != (int64)m.size()) { fail("%s: %lld elements instead of %zu", what, (long long)l.size(), m.size()); return; }
   for(size_t i = 0; i < m.size(); i++) if(val(l.get((int64)i)) != m[i] || val(l[(int64)i]) != m[i]) { fail("%s: element %zu is %s instead of %s", what, i, CS(val(l.get((int64)i))), CS(m[i])); return; }
   size_t n = 0; for(String& s : l) { if(n < m.size() && val(s) != m[n]) fail("%s: walking meets %s at %zu", what, CS(val(s)), n); n++; }
   EXPECT(n == m.size(), "%s: walking meets %zu elements", what, n);
}
static LU opieces(const U& t, const U& seps, bool ret)
{
   LU r; U cur;
   for(char16_t c : t) { if(seps.find(c) != U::npos) { if(!cur.empty()) r.push_back(cur); cur.clear(); if(ret) r.push_back(U(1, c)); } else cur += c; }
   if(!cur.empty()) r.push_back(cur);
   return r;
}
static void tokenize(const U& t, const U& seps, bool ret, int looks)
{
   CASE("tokens of %s at %s%s, asking hasNext %d times", CS(t), CS(seps), ret ? " (separators returned)" : "", looks);
   LU e = opieces(t, seps, ret), g; String src = mk(t), sp = mk(seps); StringTokenizer k(src, sp, ret);
   for(size_t i = 0; i < e.size(); i++) {
      for(int q = 0; q < looks; q++) EXPECT(k.hasNext(), "hasNext is false before token %zu", i);
      g.push_back(val(k.next()));
   }
   for(int q = 0; q < looks; q++) EXPECT(!k.hasNext(), "hasNext is true after the last token");
   EXPECT(throws([&] { k.next(); }), "a token after the last one"); EXPECT(!k.hasNext(), "hasNext after the end");
   if(g != e) fail("tokens %s instead of %s", showl(g).c_str(), showl(e).c_str());
   if(ret) { U all; for(auto& u : g) all += u; EXPECT(all == t, "tokens do not give the text back: %s", CS(all)); }
   EXPECT(val(src) == t && val(sp) == seps, "arguments changed");
}
static void splitting(const U& t, char16_t c)
{
   CASE("split of %s at U+%04X", CS(t), c); String s = mk(t); StringList l = s.split(Char(c)); LU e = opieces(t, U(1, c), false);
   same(l, e, "split"); EXPECT(val(s) == t, "text changed");
   EXPECT(val(l.join(Char(c))) == ujoin(e, c), "join of the pieces is %s", CS(val(l.join(Char(c)))));
}
static void history()
{
   StringList a, b; LU m, n; std::string h = "list: "; int len = (int)ri(1, 60), alpha = (int)ri(1, 3);
   for(int i = 0; i < len; i++) {
      U x = rstr(alpha, 2); int64 sz = (int64)m.size(), p = ri(-1, sz); bool out = p < 0 || p >= sz; int op = (int)(rnd() % 16);
      char t[200]; snprintf(t, sizeof t, "%d(%s,%lld) ", op, CS(x), (long long)p); h += t; CASE("%s", h.c_str());
      String X = mk(x);
      if(op < 6) { if(coin()) a.append(X); else a << X; m.push_back(x); }
      else if(op == 6 && sz) { int64 q = ri(0, sz - 1); a.append(a.get(q)); m.push_back(U(m[q])); }
      else if(op == 7) { U y = x; if(sz && coin()) { int64 q = ri(0, sz - 1); y = m[q]; a.remove(a.get(q)); } else a.remove(X); m.erase(std::remove(m.begin(), m.end(), y), m.end()); }
      else if(op == 8) { bool th = throws([&] { a.set(p, X); }); EXPECT(th == out, "set(%lld) of %lld", (long long)p, (long long)sz); if(!out) m[p] = x; }
      else if(op == 9) { bool th = throws([&] { a[p] = X; }); EXPECT(th == out, "[%lld] of %lld", (long long)p, (long long)sz); if(!out) m[p] = x; }
      else if(op == 10) { EXPECT(a.contains(X) == (std::find(m.begin(), m.end(), x) != m.end()), "contains(%s)", CS(x)); }
      else if(op == 11) { b = a; n = m; if(coin()) { b.append(X); n.push_back(x); } same(b, n, "copy"); b = *&b; same(b, n, "assignment to itself"); }
      else if(op == 12) { StringList c(a); LU o = m; c.append(X); o.push_back(x); if(sz) { c.set(0, X); o[0] = x; } same(c, o, "copy"); }
      else if(op == 13) { a.sort(); std::sort(m.begin(), m.end()); }
      else if(op == 14 && coin(6)) { a.clear(); m.clear(); }
      else if(op == 15) { if(coin()) a.reserve(ri(0, 40)); EXPECT(throws([&] { a.get(p); }) == out, "get(%lld) of %lld", (long long)p, (long long)sz); }
      same(a, m, "list");
      char16_t d = coin() ? ',' : x.empty() ? 0xFFFF : x[0]; EXPECT(val(a.join(Char(d))) == ujoin(m, d), "join is %s instead of %s", CS(val(a.join(Char(d)))), CS(ujoin(m, d)));
   }
   same(b, n, "the other list");
}
void run()
{
   for(const U& t : allstr(vh_thorough ? 9 : 7, "a,")) { for(int q = 0; q < 3; q++) { tokenize(t, asc(","), false, q); tokenize(t, asc(","), true, q); } splitting(t, ','); splitting(t, 'a'); }
   for(const U& t : allstr(5, "ab,;")) for(const char* s : {"", ",", ",;", ";,", "ab,;", ",,"}) { tokenize(t, asc(s), false, 1); tokenize(t, asc(s), true, 0); }
   for(int n = 0; n < 40; n++) { StringList l((int64)n); same(l, LU(n), "list of a given size"); StringList k(mk(asc("x"))); same(k, LU(1, asc("x")), "list of one string"); }
   for(const U& u : vh_hintstrings()) { splitting(u, u.empty() ? 0 : u[0]); for(const U& w : vh_hintstrings()) { tokenize(u, w, false, 1); tokenize(u, w, true, 1); } }
   while(timeleft()) for(int i = 0; i < 20; i++) {
      history();
      U t = rstr(coin() ? 12 : 200), s = rstr(4); tokenize(t, s, coin(), (int)(rnd() % 3)); splitting(t, t.empty() || coin() ? (char16_t)' ' : t[rnd() % t.size()]);
   }
}

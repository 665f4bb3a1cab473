#include "vh.h"
static U norm(const U& t)
{
   U r; for(size_t i = 0; i < t.size(); i++) if(!(i && t[i] == '/' && t[i - 1] == '/')) r += t[i];
   if(r.size() > 1 && r.back() == '/') r.pop_back();
   return r;
}
static U join(const U& p, const U& c) { return (p == u"/" ? U() : p) + u"/" + (c[0] == '/' ? c.substr(1) : c); }
static void parts(const char* k, const File& f, const U& e)
{
   size_t s = e.rfind(u'/'); U name = s == U::npos ? e : e.substr(s + 1); size_t d = name.rfind(u'.');
   U g = val(f.path()); if(g != e) fail("%s: path is %s instead of %s", k, CS(g), CS(e));
   g = val(f.absolutePath()); if(g != e) fail("%s: absolute path is %s instead of %s", k, CS(g), CS(e));
   g = val(f.name()); if(g != name) fail("%s: name is %s instead of %s", k, CS(g), CS(name));
   g = val(f.parent()); if(g != (s == U::npos ? U() : e.substr(0, s))) fail("%s: parent is %s", k, CS(g));
   g = val(f.extension()); if(g != (d == U::npos ? U() : name.substr(d + 1))) fail("%s: extension is %s", k, CS(g));
   if(f.isNull() != e.empty()) fail("%s: isNull() is %d", k, (int)f.isNull());
}
static void one(const U& t)
{
   CASE("path %s", CS(t));
   String s = mk(t); File f(s); U e = norm(t);
   parts("File(text)", f, e); if(val(s) != t) fail("the text itself changed");
   File g(f); parts("copy", g, e);
   File h(mk(u"/x.y/z")); h = f; parts("assigned", h, e); parts("source of assignment", f, e);
   File& alias = h; h = alias; parts("assigned to itself", h, e);
   File n(f.path()); parts("File(path())", n, e);
}
static void two(const U& p, const U& c)
{
   CASE("parent %s, child %s", CS(p), CS(c));
   String ps = mk(p), cs = mk(c); File pf(ps); bool thrown = false;
   try { File f(ps, cs); if(c.empty()) fail("empty child accepted"); parts("File(parent, child)", f, join(norm(p), norm(c))); }
   catch(Exception& e) { thrown = true; }
   if(thrown != c.empty()) fail("exception for File(text, text): %d", (int)thrown);
   thrown = false;
   try { File f(pf, cs); if(c.empty()) fail("empty child accepted"); parts("File(file, child)", f, join(norm(p), norm(c))); }
   catch(Exception& e) { thrown = true; }
   if(thrown != c.empty()) fail("exception for File(file, text): %d", (int)thrown);
   parts("parent afterwards", pf, norm(p));
   if(val(ps) != p || val(cs) != c) fail("arguments changed");
}
void run()
{
   { CASE("default constructor"); File f; parts("File()", f, U()); }
   for(auto& t : allstr(7, "/a.")) one(t);
   for(auto& p : allstr(4, "/a.")) for(auto& c : allstr(4, "/a.")) two(p, c);
   for(auto& h : vh_hintstrings()) { one(h); two(h, u"/b"); two(u"b/", h); }
   while(timeleft()) {
      auto gen = [&](int m) { U t; int n = (int)(rnd() % m); for(int i = 0; i < n; i++) t += (char16_t)(coin(10) ? 1 + rnd() % 0xD7FF : (uint64_t)"////..ab"[rnd() % 8]); return t; };
      U a = gen(40), b = gen(12); one(a); two(a, b);
   }
}

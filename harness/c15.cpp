#include "vh.h"
static int64 conv(int64_t x, int64*) { return x; }
static String conv(int64_t x, String*) { return String::valueOf((int64)x); }
static double conv(int64_t x, double*) { return (double)x / 4; }
static bool eq(int64 a, int64 b) { return a == b; }
static bool eq(double a, double b) { return a == b; }
static bool eq(const String& a, const String& b) { return a.equals(b); }
template<class T> static void arrays(const char* tn)
{
   T* tag = nullptr; int64_t n = ri(0, 40);
   Array<T> a(n); std::vector<T> m;
   CASE("Array<%s> of %lld elements", tn, (long long)n);
   for(int64_t i = 0; i < n; i++) { T x = conv(rint64(), tag); a.set(i, x); m.push_back(x); }
   for(int s = 0; s < 60; s++) {
      int64_t i = ri(-2, n + 1); T x = conv(rint64(), tag); int op = (int)(rnd() % 4); bool out = i < 0 || i >= n;
      if(op == 0) { bool t = throws([&] { a.set(i, x); }); if(t != out) fail("set(%lld) of %lld", (long long)i, (long long)n); if(!out) m[i] = x; }
      if(op == 1) { bool t = throws([&] { a[i] = x; }); if(t != out) fail("[%lld] of %lld", (long long)i, (long long)n); if(!out) m[i] = x; }
      if(op == 2) { bool t = throws([&] { T y = a.get(i); if(!out && !eq(y, m[i])) fail("get(%lld) is not the value stored", (long long)i); }); if(t != out) fail("get(%lld) of %lld", (long long)i, (long long)n); }
      if(op == 3) {
         Array<T> b(a), c(3), d; c = a; d = c; d = *&d; EXPECT(b.size() == n && c.size() == n && d.size() == n, "size of a copy");
         if(n) { b.set(0, conv(7, tag)); c[n - 1] = conv(8, tag); if(!eq(b.get(0), conv(7, tag)) || !eq(c.get(n - 1), conv(8, tag))) fail("copy"); for(int64_t k = 0; k < n; k++) if(!eq(d.get(k), m[k])) fail("copy differs at %lld", (long long)k); }
         Array<T> e; c = e; EXPECT(c.size() == 0 && throws([&] { c.get(0); }), "assignment of an empty array");
      }
   }
   EXPECT(a.size() == n, "size");
   for(int64_t k = 0; k < n; k++) if(!eq(a.get(k), m[k])) fail("element %lld changed", (long long)k);
}
template<> void arrays<Object*>(const char* tn)
{
   uint32_t n = (uint32_t)ri(0, 30); Array<Object*> a(n); std::vector<Object*> m; CASE("Array<Object*> of %u elements", n);
   static Object pool[8];
   for(uint32_t i = 0; i < n; i++) { m.push_back(&pool[rnd() % 8]); a.set(i, m[i]); }
   for(int s = 0; s < 40; s++) {
      uint32_t i = (uint32_t)ri(-1, n + 1); Object* x = &pool[rnd() % 8]; bool out = i >= n;
      if(coin()) { bool t = throws([&] { a.set(i, x); }); if(t != out) fail("set(%u)", i); if(!out) m[i] = x; }
      else { bool t = throws([&] { if(a.get(i) != m[i] || a[i] != m[i]) fail("get(%u)", i); }); if(t != out) fail("get(%u) of %u", i, n); }
      Array<Object*> b(a), c; c = a; if(n) { b.set(0, nullptr); EXPECT(a.get(0) == m[0] && c.get(0) == m[0] && b.get(0) == nullptr, "copies are not independent"); }
   }
}
static void floats()
{
   uint32_t n = (uint32_t)ri(0, 30); FloatArray a(n); std::vector<float> m; CASE("FloatArray of %u elements", n);
   for(uint32_t i = 0; i < n; i++) { m.push_back((float)ri(-100, 100)); a.Set(i, m[i]); }
   FloatArray b(a), c; c = a; EXPECT(c.Length() == n && b.Length() == n, "length");
   for(uint32_t i = 0; i < n; i++) { b[i] = 0; EXPECT(a.Get(i) == m[i] && c.Get(i) == m[i] && a[i] == m[i], "element %u", i); }
   FloatArray d{1.5f, -2.0f, 3.0f}; EXPECT(d.Length() == 3 && d[0] == 1.5f && d[1] == -2.0f && d[2] == 3.0f, "list");
   a.Sort(); std::sort(m.begin(), m.end()); for(uint32_t i = 0; i < n; i++) EXPECT(a.Get(i) == m[i], "sorted element %u", i);
}
template<class T> static void stacks(const char* tn)
{
   T* tag = nullptr; Stack<T> s; std::vector<T> m; std::string h = std::string("Stack<") + tn + ">: "; int len = (int)ri(1, 60); bool fill = coin();
   for(int i = 0; i < len; i++) {
      T x = conv(rint64(), tag); int op = (int)(rnd() % 8);
      if(op < (fill ? 5 : 3)) { h += "push "; CASE("%s", h.c_str()); s.push(x); m.push_back(x); }
      else if(op == 5 && m.size()) { h += "pop "; CASE("%s", h.c_str()); T y = s.pop(); if(!eq(y, m.back())) fail("pop is not the last value pushed"); m.pop_back(); }
      else if(op == 6) { h += "reverse "; CASE("%s", h.c_str()); s.reverse(); std::reverse(m.begin(), m.end()); }
      else if(op == 7 && coin(12)) { h += "clear "; CASE("%s", h.c_str()); s.clear(); m.clear(); }
      EXPECT(s.size() == m.size() && s.hasElements() == !m.empty(), "size %u instead of %zu", s.size(), m.size());
      if(m.size()) { EXPECT(eq(s.top(), m.back()) && eq(*s.topRef(), m.back()), "top"); if(coin()) { T z = conv(rint64(), tag); s.top() = z; m.back() = z; } }
      bool t2 = throws([&] { if(!eq(s.top2(), m[m.size() - 2])) fail("top2"); }); EXPECT(t2 == (m.size() < 2), "top2 with %zu elements", m.size());
      bool t3 = throws([&] { if(!eq(s.top3(), m[m.size() - 3])) fail("top3"); }); EXPECT(t3 == (m.size() < 3), "top3 with %zu elements", m.size());
   }
   while(m.size()) { if(!eq(s.pop(), m.back())) fail("pop is not the last value pushed"); m.pop_back(); EXPECT(s.size() == m.size(), "size"); }
   EXPECT(!s.hasElements(), "elements left");
}
void run()
{
   while(timeleft()) for(int i = 0; i < 20; i++) {
      arrays<int64>("int64"); arrays<String>("String"); arrays<double>("double"); arrays<Object*>("Object*"); floats();
      stacks<int64>("int64"); stacks<String>("String"); stacks<double>("double");
   }
}

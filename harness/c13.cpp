#include "vh.h"
typedef std::map<U, void*> M;
static U us(const String& s) { U r; for(int64 i = 0; i < s.size(); i++) r.push_back(s.charAt(i).unicode()); return r; }
static String js(const U& u) { String s; for(char16_t c : u) s.append(Char((uint16)c)); return s; }
static std::vector<U> keys;
static std::string sh(const U& u) { std::string s; for(char16_t c : u) { char t[8]; snprintf(t, 8, c > 32 && c < 127 ? "%c" : "%04x", c); s += t; } return s; }
static char vals[64];
static void check(Hashtable& h, const M& m)
{
   EXPECT(h.size() == (int64)m.size(), "size %lld instead of %zu", (long long)h.size(), m.size());
   for(const U& k : keys) {
      String s = js(k); auto i = m.find(k); void* w = i == m.end() ? nullptr : i->second;
      EXPECT(h.get(s) == w, "lookup of %s gives %ld instead of %ld", sh(k).c_str(), h.get(s) ? (long)((char*)h.get(s) - vals) : -1L, w ? (long)((char*)w - vals) : -1L);
      EXPECT(h.containsKey(s) == (w != nullptr), "containsKey %s", sh(k).c_str());
   }
   std::multiset<void*> a, b; std::set<U> ka, kb;
   for(auto& p : m) { a.insert(p.second); ka.insert(p.first); }
   Iterator* v = h.values(); size_t n = 0;
   bool ask = coin();
   while(n <= m.size() && (ask ? v->hasNext() : n < m.size())) { b.insert((void*)v->next()); n++; }
   EXPECT(a == b && n == m.size(), "values visited: %zu of %zu", n, m.size());
   EXPECT(!v->hasNext() && v->next() == nullptr && !v->hasNext(), "iterator at the end");
   delete v;
   Iterator* k = h.keys(); n = 0;
   while(n <= m.size() && k->hasNext()) { if(coin()) k->hasNext(); Object* o = k->next(); if(!o) { fail("null key"); break; } kb.insert(us(*(String*)o)); n++; }
   EXPECT(ka == kb && n == m.size(), "keys visited: %zu of %zu", n, m.size());
   EXPECT(k->next() == nullptr, "key iterator at the end");
   delete k;
}
void run()
{
   // texts with equal hashes, equal low bits of the hash, and others
   std::map<int64, std::vector<U>> by;
   for(char16_t a = 'A'; a < 'A' + 12; a++) for(char16_t b = 1; b < 500; b += 1) { U u{a, b}; by[js(u).hashCode()].push_back(u); }
   std::vector<U> all; for(auto& p : by) if(p.second.size() > 2) for(auto& u : p.second) all.push_back(u);
   std::vector<U> plain; for(int i = 0; i < 400; i++) { U u; for(int k = (int)(rnd() % 12); k > 0; k--) u.push_back((char16_t)(coin(8) ? rnd() : 'a' + rnd() % 4)); plain.push_back(u); }
   plain.push_back(U());
   for(int r = 0; timeleft() || r < 60; r++) {
      keys.clear();
      int nk = (int)ri(1, r % 5 == 0 ? 60 : 12);
      size_t base = all.empty() ? 0 : rnd() % all.size();
      std::set<U> ks; for(int i = 0; i < nk; i++) ks.insert(!all.empty() && coin() ? all[(base + i) % all.size()] : plain[rnd() % plain.size()]);
      keys.assign(ks.begin(), ks.end());
      Hashtable* h = new Hashtable(); M m; std::string log;
      int steps = (int)ri(1, r % 5 == 0 ? 200 : 40);
      for(int s = 0; s < steps; s++) {
         const U& k = keys[rnd() % keys.size()]; String key = js(k); int op = (int)(rnd() % 16);
         if(coin(3)) key.hashCode();
         if(op < 9) {
            int v = coin(20) ? -1 : (int)(rnd() % 64); log += "put " + sh(k) + "=" + std::to_string(v) + ","; CASE("%s", log.c_str());
            void* o = h->put(key, v < 0 ? nullptr : vals + v); auto i = m.find(k);
            EXPECT(o == (i == m.end() ? nullptr : i->second), "put returns a wrong old value");
            m[k] = v < 0 ? nullptr : vals + v;
         }
         else if(op < 14) {
            log += "remove " + sh(k) + ","; CASE("%s", log.c_str());
            void* o = h->remove(key); auto i = m.find(k);
            EXPECT(o == (i == m.end() ? nullptr : i->second), "remove returns a wrong value");
            m.erase(k);
         }
         else if(op == 14 && coin(8)) { log += "clear,"; CASE("%s", log.c_str()); h->clear(); m.clear(); }
         if(steps < 50 || s % 10 == 0) check(*h, m);
      }
      check(*h, m);
      h->release();
   }
}

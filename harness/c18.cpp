#include "vh.h"
struct Cnt : public Object { int id; static std::vector<int> died; Cnt(int i): id(i) { died.resize(std::max<size_t>(died.size(), i + 1)); } ~Cnt() override { died[id]++; } };
std::vector<int> Cnt::died;
void run()
{
   int next = 0;
   for(int r = 0; timeleft() || r < 50; r++) {
      AutoreleasePool* pool = System::autoreleasePool();
      struct E { Cnt* o; int refs, pend; bool hi; };
      std::vector<E> v; std::string log; char t[64];
      int steps = (int)ri(1, 60);
      for(int s = 0; s < steps; s++) {
         int op = (int)(rnd() % 12);
         if(v.empty() || op == 0) { v.push_back({new Cnt(next++), 1, 0, false}); snprintf(t, 64, "new %zu,", v.size() - 1); log += t; CASE("%s", log.c_str()); EXPECT(v.back().o->referenceCount() == 1, "count of a new object"); continue; }
         int i = (int)(rnd() % v.size()); E& e = v[i];
         if(op < 4) { snprintf(t, 64, "retain %d,", i); log += t; CASE("%s", log.c_str()); EXPECT(e.o->retain() == e.o, "retain"); e.refs++; }
         else if(op < 7) {
            if(e.refs - e.pend < 1) continue;
            snprintf(t, 64, "release %d,", i); log += t; CASE("%s", log.c_str());
            int id = e.o->id; e.o->release(); e.refs--;
            EXPECT(Cnt::died[id] == (e.refs == 0), "destroyed %d times with %d references", Cnt::died[id], e.refs);
            if(e.refs == 0) { v.erase(v.begin() + i); continue; }
         }
         else if(op < 10) { if(e.refs - e.pend < 1) continue; snprintf(t, 64, "autorelease %d,", i); log += t; CASE("%s", log.c_str()); EXPECT(e.o->autorelease() == e.o, "autorelease"); e.pend++; }
         else if(op == 10) {
            log += "drain,"; CASE("%s", log.c_str()); pool->drain();
            std::vector<E> w;
            for(E& x : v) { x.refs -= x.pend; x.pend = 0; if(x.refs > 0) w.push_back(x); }
            for(E& x : v) if(x.refs == 0) { bool dead = false; for(int d : Cnt::died) if(d > 1) dead = true; EXPECT(!dead, "an object was destroyed twice"); }
            size_t gone = 0, want = 0; for(int d : Cnt::died) gone += d; want = (size_t)next; for(E& x : w) { want--; EXPECT(Cnt::died[x.o->id] == 0, "an object with %d references was destroyed by drain", x.refs); }
            EXPECT(gone == want, "%zu objects destroyed after drain instead of %zu", gone, want);
            v = w; continue;
         }
         else { bool b = coin(); snprintf(t, 64, "highbit %d %d,", i, b); log += t; CASE("%s", log.c_str()); e.o->setHighBit(b); e.hi = b; }
         for(E& x : v) { EXPECT(x.o->referenceCount() == x.refs, "reference count %d instead of %d", x.o->referenceCount(), x.refs); EXPECT(x.o->highBit() == x.hi, "high bit"); EXPECT(Cnt::died[x.o->id] == 0, "destroyed early"); }
         if(v.size() > 1 && coin(4)) {   // copies have a count of their own
            log += "copy,"; CASE("%s", log.c_str());
            Cnt* c = new Cnt(*v[0].o); c->id = next++; Cnt::died.resize(next); EXPECT(c->referenceCount() == 1, "reference count of a copy is %d", c->referenceCount());
            int keep = v[1].o->id; *(Object*)v[1].o = *(Object*)c; v[1].o->id = keep;
            EXPECT(v[1].o->referenceCount() == v[1].refs && v[1].o->highBit() == v[1].hi, "assignment changed the reference count from %d to %d", v[1].refs, v[1].o->referenceCount());
            c->release(); EXPECT(Cnt::died[next - 1] == 1, "copy not destroyed");
         }
      }
      for(E& x : v) { while(x.refs - x.pend > 0) { x.o->release(); x.refs--; } }
      CASE("%s final drain", log.c_str()); pool->drain();
      for(int d : Cnt::died) EXPECT(d == 1, "an object was destroyed %d times", d);
   }
   for(int r = 0; r < 50; r++) { CASE("pool of its own"); AutoreleasePool* p = new AutoreleasePool(); p->drain(); p->drain(); p->release(); }
}

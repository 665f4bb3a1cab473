#include "vh.h"
#include <thread>
#include <atomic>
struct Cnt : public Object { static std::atomic<int> died; ~Cnt() override { died++; } };
std::atomic<int> Cnt::died{0};
struct Th : public Thread {
   std::atomic<int> runs{0}; std::atomic<bool> seen{false}; bool wait;
   Th(bool w): wait(w) {}
   void run() override { runs++; if(wait) while(isAlive()) std::this_thread::yield(); seen = !isAlive(); }
   using Thread::lock; using Thread::unlock;
};
template<class F> static void par(int n, F f) { std::vector<std::thread> v; for(int i = 0; i < n; i++) v.emplace_back(f, i); for(auto& t : v) t.join(); }
void run()
{
   for(int r = 0; timeleft() || r < 4; r++) {
      int n = (int)ri(2, 6), m = (int)ri(100, 3000);
      { CASE("%d threads retain one object %d times and release it again", n, m);
        Cnt::died = 0; Cnt* o = new Cnt(); par(n, [&](int i) { for(int k = 0; k < m; k++) { o->retain(); if(k % 5 == 0) o->setHighBit(i & 1); } });
        EXPECT(o->referenceCount() == n * m + 1, "reference count %d instead of %d", o->referenceCount(), n * m + 1);
        par(n, [&](int) { for(int k = 0; k < m; k++) o->release(); });
        EXPECT(o->referenceCount() == 1 && Cnt::died == 0, "reference count %d instead of 1", o->referenceCount()); o->release(); EXPECT(Cnt::died == 1, "destroyed %d times", Cnt::died.load()); }
      { CASE("last releases of %d threads", n);
        for(int k = 0; k < 50; k++) { Cnt::died = 0; Cnt* o = new Cnt(); for(int i = 1; i < n; i++) o->retain(); par(n, [&](int) { o->release(); }); EXPECT(Cnt::died == 1, "destroyed %d times", Cnt::died.load()); } }
      { CASE("%d threads register %d objects each while another drains", n, m / 10);
        Cnt::died = 0; std::atomic<int> live{n}; par(n + 1, [&](int i) { if(i == n) { while(live > 0) System::autoreleasePool()->drain(); return; } for(int k = 0; k < m / 10; k++) { Cnt* o = new Cnt(); if(k % 3 == 0) o->retain()->autorelease(); o->autorelease(); } live--; });
        System::autoreleasePool()->drain(); EXPECT(Cnt::died == n * (m / 10), "%d objects destroyed instead of %d", Cnt::died.load(), n * (m / 10)); }
      { CASE("%d threads in a critical section", n);
        Mutex mx; long c = 0; int in = 0; par(n, [&](int) { for(int k = 0; k < m; k++) { mx.lock(); in++; EXPECT(in == 1, "two threads inside"); c++; in--; mx.unlock(); } }); EXPECT(c == (long)n * m, "%ld increments instead of %ld", c, (long)n * m); }
      for(int k = 0; k < 30; k++) {
         CASE("interrupt %s start", k & 1 ? "right after" : "some time after");
         Th* t = new Th(true); EXPECT(!t->isAlive(), "alive before start"); t->start(); if(!(k & 1)) { int spin = (int)ri(0, 2000); for(volatile int i = 0; i < spin; i = i + 1); }
         EXPECT(t->isAlive(), "not alive after start"); t->interrupt(); EXPECT(t->runs == 1, "run called %d times", t->runs.load()); EXPECT(t->seen, "interruption not seen"); EXPECT(!t->isAlive(), "alive after interruption"); t->release();
      }
      { CASE("thread lock"); Th* t = new Th(false); long c = 0; par(n, [&](int) { for(int k = 0; k < m; k++) { t->lock(); c++; t->unlock(); } }); EXPECT(c == (long)n * m, "%ld increments", c); t->release(); }
   }
}

#include "vh.h"
struct Cnt : public Object { int id; static int live; Cnt(int i): id(i) { live++; } ~Cnt() override { live--; } };
int Cnt::live = 0;
typedef std::vector<Object*> V;
static std::vector<Cnt*> objs;
static std::string show(const V& v) { std::string s = "["; for(Object* o : v) s += std::to_string(o ? ((Cnt*)o)->id : -1) + " "; return s + "]"; }
static void check(LinkedList& l, const V& m)
{
   EXPECT(l.size() == m.size(), "size %u instead of %zu", l.size(), m.size());
   EXPECT(l.first() == (m.empty() ? nullptr : m.front()), "first of %s", CS(m));
   EXPECT(l.last() == (m.empty() ? nullptr : m.back()), "last of %s", CS(m));
   V w; l.rewind(); while(l.hasNext() && w.size() <= m.size()) w.push_back(l.next());
   if(w != m) fail("walk gives %s instead of %s", CS(w), CS(m));
   w.clear(); LinkedListIterator it = l.iterator(), it2(it), it3(nullptr); it3 = it2; it3 = *&it3;
   EXPECT(!LinkedListIterator(nullptr).hasNext() && LinkedListIterator(nullptr).next() == nullptr, "empty iterator");
   while(it3.hasNext() && w.size() <= m.size()) { Object* s = it3.seek(); Object* x = it3.next(); if(s != x) fail("seek"); w.push_back(x); }
   if(w != m) fail("iterator gives %s instead of %s", CS(w), CS(m));
   EXPECT(it3.next() == nullptr && it3.seek() == nullptr && it2.hasNext() == !m.empty(), "iterator at the end");
}
static void ops(LinkedList& l, V& m, UndoManager* um, int steps, LinkedList& other, const V& om, std::string& log)
{
   for(int s = 0; s < steps; s++) {
      int op = (int)(rnd() % 12), x = (int)(rnd() % objs.size()), y = (int)(rnd() % objs.size()); Object *a = objs[x], *b = objs[y];
      char t[64];
      if(op < 4) { snprintf(t, 64, "add %d,", x); log += t; CASE("%s", log.c_str()); l.add(a, um); m.push_back(a); }
      else if(op < 7) { snprintf(t, 64, "before %d add %d,", x, y); log += t; CASE("%s", log.c_str()); l.addBefore(a, b, um); auto i = std::find(m.begin(), m.end(), a); if(i != m.end()) m.insert(i, b); }
      else if(op < 10) {
         if(!m.empty() && coin(4)) a = coin() ? m.front() : m.back();
         snprintf(t, 64, "remove %d,", ((Cnt*)a)->id); log += t; CASE("%s", log.c_str());
         Status st = l.remove(a, um); auto i = std::find(m.begin(), m.end(), a);
         if(i != m.end()) { EXPECT(st == Status::eOK, "status of remove"); m.erase(i); } else EXPECT(st == Status::eNotFound, "status of remove of a missing element");
      }
      else if(op == 10) {
         if(x == y || std::count(m.begin(), m.end(), a) > 1 || std::count(m.begin(), m.end(), b) > 1) continue;
         snprintf(t, 64, "swap %d %d,", x, y); log += t; CASE("%s", log.c_str());
         l.swapData(a, b, um); auto i = std::find(m.begin(), m.end(), a), j = std::find(m.begin(), m.end(), b);
         if(i != m.end() && j != m.end()) std::swap(*i, *j);
      }
      else if(coin(6)) { log += "clear,"; CASE("%s", log.c_str()); l.clear(um); m.clear(); }
      else if(coin(3)) { log += "walk,"; l.rewind(); int n = (int)(rnd() % 4); while(n-- > 0 && l.hasNext()) l.next(); }
      if(um && coin(5)) um->close();
      if(!log.empty() && coin(2)) check(l, m);
   }
   check(l, m); check(other, om);
}
void run()
{
   static Object owner;
   for(int i = 0; i < 6; i++) objs.push_back(new Cnt(i));
   for(int r = 0; timeleft() || r < 50; r++) {
      int mode = r % 3; UndoManager* um = mode ? new UndoManager() : nullptr; if(um) um->setActive(mode == 2);
      {
         LinkedList l(&owner), other(&owner); V m, om; std::string log = mode == 0 ? "" : mode == 1 ? "inactive undo manager: " : "undo manager: ";
         for(int k = 0; k < (int)(rnd() % 4); k++) { om.push_back(objs[k]); other.add(objs[k], um); }
         ops(l, m, um, (int)ri(1, 40), other, om, log);
         if(mode == 2) { l.clear(um); other.clear(um); um->clearStacks(); }
      }
      if(um) um->release();
      for(Cnt* o : objs) EXPECT(o->referenceCount() == 1, "reference count of an element's data is %d afterwards", o->referenceCount());
   }
   EXPECT(Cnt::live == 6, "an element's data was destroyed");
}

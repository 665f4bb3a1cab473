// makes the compiler emit the inline functions of the headers under contract
#include "PrecompiledCore.hpp"
using namespace jm;
extern "C" bool vp_contains(const Rect& r, double x, double y) { return r.contains(x, y); }
extern "C" bool vp_containsP(const Rect& r, const Point& p) { return r.contains(p); }
extern "C" bool vp_containsV(const Rect& r, const Vertex2& p) { return r.contains(p); }
extern "C" bool vp_intersects(const Rect& r, const Rect& o) { return r.intersects(o); }

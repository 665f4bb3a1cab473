#include "vh.h"
struct Q { double l, t, r, b; };
static Q q(const Rect& r) { return {r.left(), r.top(), r.right(), r.bottom()}; }
static std::string S(const Q& a) { char b[200]; snprintf(b, 200, "[%.17g %.17g %.17g %.17g]", a.l, a.t, a.r, a.b); return b; }
static void eq(const char* op, const Rect& g, double l, double t, double r, double b)
{
   Q a = q(g), e = {l, t, r, b};
   if(a.l != l || a.t != t || a.r != r || a.b != b) fail("%s gives %s instead of %s", op, S(a).c_str(), S(e).c_str());
}
static void one(double x, double y, double w, double h, double d)
{
   Rect o(x, y, w, h); CASE("rect x %.17g y %.17g w %.17g h %.17g, argument %.17g", x, y, w, h, d);
   double l = x, t = y, r = x + w, b = y + h; Rect g = o;
   EXPECT(o.x() == x && o.y() == y && o.width() == w && o.height() == h && o.left() == l && o.top() == t && o.right() == r && o.bottom() == b, "accessors");
   EXPECT(o.size().width() == w && o.size().height() == h && o.origin().x() == x && o.origin().y() == y, "size/origin");
   struct { const char* n; Point p; double x, y; } pts[] = {{"center", o.center(), x + w / 2, y + h / 2}, {"topLeft", o.topLeft(), l, t}, {"topRight", o.topRight(), r, t}, {"bottomLeft", o.bottomLeft(), l, b}, {"bottomRight", o.bottomRight(), r, b}, {"topCenter", o.topCenter(), x + w / 2, t}, {"bottomCenter", o.bottomCenter(), x + w / 2, b}, {"leftCenter", o.leftCenter(), l, y + h / 2}, {"rightCenter", o.rightCenter(), r, y + h / 2}};
   for(auto& p : pts) EXPECT(p.p.x() == p.x && p.p.y() == p.y, "%s is %.17g %.17g", p.n, p.p.x(), p.p.y());
#define OP(call, L, T, R, B) do { g = o; g.call; eq(#call, g, L, T, R, B); } while(0)
   OP(setLeft(d), d, t, r, b); OP(setRight(d), l, t, d, b); OP(setTop(d), l, d, r, b); OP(setBottom(d), l, t, r, d);
   OP(shiftLeft(d), l + d, t, r, b); OP(shiftRight(d), l, t, r + d, b); OP(shiftTop(d), l, t + d, r, b); OP(shiftBottom(d), l, t, r, b + d);
   OP(moveLeft(d), l + d, t, r, b); OP(moveRight(d), l, t, r + d, b); OP(moveBottom(d), l, t, r, b + d);
   OP(moveHorizontal(d), l + d, t, r + d, b); OP(moveVertical(d), l, t + d, r, b + d); OP(move(Point(d, 2 * d)), l + d, t + 2 * d, r + d, b + 2 * d);
   OP(setX(d), d, t, d + w, b); OP(setY(d), l, d, r, d + h); OP(setWidth(d), l, t, l + d, b); OP(setHeight(d), l, t, r, t + d); OP(setOrigin(d, 3), d, 3, d + w, 3 + h); OP(setOrigin(Point(3, d)), 3, d, 3 + w, d + h); OP(setSize(d, 5), l, t, l + d, t + 5); OP(setSize(Size(5, d)), l, t, l + 5, t + d);
   OP(normalize(), std::min(l, r), std::min(t, b), std::max(l, r), std::max(t, b)); EXPECT(g.width() >= 0 && g.height() >= 0, "normalize leaves a negative size");
   EXPECT(o.isEmpty() == (fabs(w) < 1e-6 || fabs(h) < 1e-6), "isEmpty");
   g = o; g.unionWith(g); eq("union with itself", g, l, t, r, b);
   eq("constructor", Rect(Point(x, y), Size(w, h)), l, t, r, b); eq("constructor", Rect(x, y, Size(w, h)), l, t, r, b); eq("constructor", Rect(), 0, 0, 0, 0);
   Point p(x, y), p2(w, h); Size s(x, y), s2(w, h);
   Point u[] = {p + p2, p - p2, d * p, p * d, p.cWiseMin(p2), p.cWiseMax(p2)}; double ux[] = {x + w, x - w, d * x, d * x, std::min(x, w), std::max(x, w)}, uy[] = {y + h, y - h, d * y, d * y, std::min(y, h), std::max(y, h)};
   for(int i = 0; i < 6; i++) EXPECT(u[i].x() == ux[i] && u[i].y() == uy[i], "point operation %d gives %g %g", i, u[i].x(), u[i].y());
   Point p3 = p; p3 += p2; EXPECT(p3.x() == x + w && p3.y() == y + h, "+="); p3 = p; p3 -= p2; EXPECT(p3.x() == x - w && p3.y() == y - h, "-=");
   Size v[] = {s - s2, d * s, s.cWiseMin(s2), s.cWiseMax(s2), Size(p)}; double vx[] = {x - w, d * x, std::min(x, w), std::max(x, w), x}, vy[] = {y - h, d * y, std::min(y, h), std::max(y, h), y};
   for(int i = 0; i < 5; i++) EXPECT(v[i].width() == vx[i] && v[i].height() == vy[i], "size operation %d gives %g %g", i, v[i].width(), v[i].height());
   bool e = fabs(x - w) < 1e-6 && fabs(y - h) < 1e-6; EXPECT((s == s2) == e && (s != s2) == !e, "size comparison");
}
static void two(double x, double y, double w, double h, double x2, double y2, double w2, double h2)
{
   Rect a(x, y, w, h), c(x2, y2, w2, h2); CASE("rects %s and %s", S(q(a)).c_str(), S(q(c)).c_str());
   double l = std::max(x, x2), t = std::max(y, y2), r = std::min(x + w, x2 + w2), b = std::min(y + h, y2 + h2);
   Rect g = a; g.unionWith(c); eq("union", g, std::min(x, x2), std::min(y, y2), std::max(x + w, x2 + w2), std::max(y + h, y2 + h2));
   bool m = x <= x2 + w2 && x2 <= x + w && y <= y2 + h2 && y2 <= y + h;
   EXPECT(a.intersects(c) == m && c.intersects(a) == m, "intersects is %d", a.intersects(c));
   if(w >= 0 && h >= 0 && w2 >= 0 && h2 >= 0) {
      g = a; g.intersect(c); if(m) eq("intersect", g, l, t, r, b); else EXPECT(g.width() < 0 || g.height() < 0, "intersection of disjoint rectangles is not empty");
      g = a.intersection(c); if(m) eq("intersection", g, l, t, r, b); else EXPECT(g.width() == 0 && g.height() == 0, "intersection of disjoint rectangles is not empty");
   }
   g = a; g.alignTopLeft(c); eq("alignTopLeft", g, x2, y2, x2 + w, y2 + h);
   g = a; g.alignBottomLeft(c); eq("alignBottomLeft", g, x2, y2 + h2 - h, x2 + w, y2 + h2);
   for(double px : {x, x + w, x2, x2 - 1}) for(double py : {y, y + h, y2, y2 + 1}) { bool in = px >= x && px <= x + w && py >= y && py <= y + h; EXPECT(a.contains(px, py) == in && a.contains(Point(px, py)) == in && a.contains(Vertex2(px, py)) == in, "contains %g %g", px, py); }
}
static void ext()
{
   int n = (int)ri(0, 6); Extents e, part; double lo[3] = {1e90, 1e90, 1e90}, hi[3] = {-1e90, -1e90, -1e90}; std::string hist; bool partof = coin();
   for(int i = 0; i < n; i++) {
      double p[3] = {(double)ri(-9, 9), (double)ri(-9, 9), (double)ri(-9, 9)}; bool d2 = coin(); char b[90]; snprintf(b, 90, " %s(%g %g %g)", d2 ? "2d" : "3d", p[0], p[1], p[2]); hist += b;
      Extents& tgt = partof && i < n / 2 ? part : e;
      if(d2) tgt.add(Vertex2(p[0], p[1])); else tgt.add(Vertex3(p[0], p[1], p[2]));
      for(int k = 0; k < (d2 ? 2 : 3); k++) { lo[k] = std::min(lo[k], p[k]); hi[k] = std::max(hi[k], p[k]); }
   }
   CASE("extents of%s%s", hist.c_str(), partof ? " (first half added as extents)" : "");
   if(partof) e.add(part);
   Vertex3 a = e.minPoint(), z = e.maxPoint();
   EXPECT(a.x == lo[0] && a.y == lo[1] && a.z == lo[2] && z.x == hi[0] && z.y == hi[1] && z.z == hi[2], "box %g %g %g - %g %g %g", a.x, a.y, a.z, z.x, z.y, z.z);
   EXPECT(e.isValid() == (n > 0), "isValid"); Vertex3 d = e.delta(); EXPECT(d.x == hi[0] - lo[0] && d.y == hi[1] - lo[1] && d.z == hi[2] - lo[2], "delta %g %g %g", d.x, d.y, d.z);
   Extents f = e; f.add(e); EXPECT(f.minPoint().x == a.x && f.maxPoint().z == z.z, "adding the extents to itself"); f.add(Extents()); EXPECT(f.minPoint().x == a.x && f.maxPoint().z == z.z, "adding empty extents");
}
void run()
{
   std::vector<double> V = {-3, -1, 0, 1, 2, 4}; for(double h : vh_hf) if(V.size() < 9 && fabs(h) < 1e6) V.push_back((double)(int)h);
   for(double x : V) for(double y : V) for(double w : V) for(double h : V) one(x, y, w, h, pick(V) * 0.5);
   for(double w : {0.0, 5e-7, -5e-7, 2e-6, -2e-6, 1.0, -1.0}) { CASE("isEmpty of size %g", w); bool e = fabs(w) < 1e-6; EXPECT(Rect(0, 0, w, 3).isEmpty() == e && Rect(0, 0, 3, w).isEmpty() == e, "wrong"); }
   std::vector<double> W = {-1, 0, 2, 3};
   for(double x : V) for(double y : W) for(double w : W) for(double h : W) for(double x2 : W) for(double y2 : W) for(double w2 : W) for(double h2 : W) if(vh_thorough || (rnd() & 3) == 0) two(x, y, w, h, x2, y2, w2, h2);
   while(timeleft()) for(int i = 0; i < 100; i++) { one((double)ri(-99, 99) / 4, (double)ri(-99, 99), (double)ri(-99, 99), (double)ri(-99, 99) / 2, (double)ri(-99, 99)); ext(); two((double)ri(-9, 9), (double)ri(-9, 9), (double)ri(-9, 9), (double)ri(-9, 9), (double)ri(-9, 9), (double)ri(-9, 9), (double)ri(-9, 9), (double)ri(-9, 9)); }
}

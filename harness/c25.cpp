#include "vh.h"
typedef std::vector<std::vector<double>> M;       // rows
static std::string S(const M& a) { std::string s = "{"; for(auto& r : a) { s += "("; for(double x : r) { char b[30]; snprintf(b, 30, "%g ", x); s += b; } s += ")"; } return s.substr(0, 900) + "}"; }
static Matrix mk(const M& a, int64 n = -1) { int64 w = n >= 0 ? n : a.empty() ? 0 : (int64)a[0].size(); Matrix r((int64)a.size(), w); for(size_t i = 0; i < a.size(); i++) for(int64 j = 0; j < w; j++) r.set(i, j, a[i][j]); return r; }
static M val(const Matrix& a) { M r; for(int64 i = 0; i < a.m; i++) { r.push_back({}); for(int64 j = 0; j < a.n; j++) { double x = a.get(i, j); if(x != a.ref()[i + j * a.m]) fail("get(%lld,%lld) is not the stored element", (long long)i, (long long)j); r.back().push_back(x); } } return r; }
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)); }
static void eq(const char* op, const M& g, const M& e, bool exact = true)
{
   bool ok = g.size() == e.size(); for(size_t i = 0; ok && i < g.size(); i++) { ok = g[i].size() == e[i].size(); for(size_t j = 0; ok && j < g[i].size(); j++) ok = exact ? g[i][j] == e[i][j] : near(g[i][j], e[i][j]); }
   if(!ok) fail("%s gives %s instead of %s", op, S(g).c_str(), S(e).c_str());
}
static M rnd_m(int m, int n, int r = 5) { M a(m, std::vector<double>(n)); for(auto& x : a) for(auto& y : x) y = (double)ri(-r, r); return a; }
static M mul(const M& a, const M& b, int n) { M r(a.size(), std::vector<double>(n)); for(size_t i = 0; i < a.size(); i++) for(int j = 0; j < n; j++) for(size_t k = 0; k < b.size(); k++) r[i][j] += a[i][k] * b[k][j]; return r; }
static double det(const M& a)
{
   if(a.size() == 1) return a[0][0]; double s = 0;
   for(size_t j = 0; j < a.size(); j++) { M b; for(size_t i = 1; i < a.size(); i++) { b.push_back({}); for(size_t k = 0; k < a.size(); k++) if(k != j) b.back().push_back(a[i][k]); } s += (j % 2 ? -1 : 1) * a[0][j] * det(b); }
   return s;
}
static M ident(int n) { M r(n, std::vector<double>(n)); for(int i = 0; i < n; i++) r[i][i] = 1; return r; }
static void one(const M& a, int n)
{
   int m = (int)a.size(); CASE("matrix %dx%d %s", m, n, S(a).c_str());
   Matrix A = mk(a, n); eq("set and get", val(A), a);
   M t(n, std::vector<double>(m)); for(int i = 0; i < m; i++) for(int j = 0; j < n; j++) t[j][i] = a[i][j];
   Matrix T = A; T.transpose(); if(T.m != n || T.n != m) fail("transposition gives %lldx%lld", (long long)T.m, (long long)T.n); else eq("transpose", val(T), t);
   Matrix B; B = A; eq("assignment", val(B), a); eq("copy", val(Matrix(A)), a); eq("copy", val(Matrix(&A)), a); B = B; eq("assignment to itself", val(B), a);
   double tr = 0; int nz = 0; double n1 = 0, ni = 0; for(int i = 0; i < m && i < n; i++) tr += a[i][i]; for(auto& r : a) { double s = 0; for(double x : r) { nz += x != 0; s += std::fabs(x); } ni = std::max(ni, s); } for(auto& r : t) { double s = 0; for(double x : r) s += std::fabs(x); n1 = std::max(n1, s); }
   EXPECT(A.trace() == tr, "trace is %g instead of %g", A.trace(), tr); EXPECT((int)A.nonZeroElementCount() == nz, "nonZeroElementCount"); EXPECT(A.norm(MatrixNorm::kNorm1) == n1 && A.norm(MatrixNorm::kNormInf) == ni, "norms %g %g instead of %g %g", A.norm(MatrixNorm::kNorm1), A.norm(MatrixNorm::kNormInf), n1, ni);
   double d = (double)ri(-4, 4); M e = a; for(auto& r : e) for(double& x : r) x *= d; eq("d * M", val(d * A), e); eq("M * d", val(A * d), e); e = a; for(auto& r : e) for(double& x : r) x /= 4; eq("M / d", val(A / 4.0), e);
   e = a; for(int i = 0; i < m && i < n; i++) e[i][i] = d; B = A; B.diag(d); eq("diag", val(B), e); for(auto& r : e) for(double& x : r) x = 0; B.zeros(); eq("zeros", val(B), e);
   if(m && n) { int i = (int)ri(0, m - 1), j = (int)ri(0, n - 1); e = a; e[i][j] += 3; B = A; B.add(i, j, 3); eq("add", val(B), e); e[i][j] = 9; B.set(i, j, 9); eq("set", val(B), e); }
   M b = rnd_m((int)ri(0, 5), (int)ri(0, 5)); if(b.size() && b[0].size()) {
      int r = (int)ri(0, m), c = (int)ri(0, n); e = a; for(size_t i = 0; i < b.size(); i++) for(size_t j = 0; j < b[0].size(); j++) if((int)i < m && (int)j < n) e[i][j] = b[i][j]; B = A; B.insert(mk(b)); eq("insert", val(B), e);
      e = a; for(size_t i = 0; i < b.size(); i++) for(size_t j = 0; j < b[0].size(); j++) if((int)i + r < m && (int)j + c < n) e[i + r][j + c] = b[i][j]; B = A; B.insert(mk(b), r, c); eq("insert at a place", val(B), e);
   }
   Vector v(n); for(int j = 0; j < n; j++) v.data[j] = (double)ri(-5, 5); Vector w = A * v; EXPECT(w.m == m, "rows of M * v"); for(int i = 0; i < m && w.m == m; i++) { double s = 0; for(int j = 0; j < n; j++) s += a[i][j] * v.data[j]; EXPECT(w.data[i] == s, "row %d of M * v is %g instead of %g", i, w.data[i], s); }
   EXPECT(throws([&]{ A * Vector(n + 1); }), "M * v of different dimensions"); EXPECT(throws([&]{ A * Matrix(n + 1, 2); }), "product of different dimensions"); EXPECT(throws([&]{ A + Matrix(m, n + 1); }) && throws([&]{ A - Matrix(m + 1, n); }), "sum of different dimensions");
   double x = 77; Status st = A.det(x); bool sq = m == n && m >= 1 && m <= 4; EXPECT((st == Status::eOK) == sq, "status of det"); if(!sq) { EXPECT(x == 77, "det changed"); B = A; EXPECT(B.inverse() != Status::eOK, "status of inverse"); eq("inverse", val(B), a); return; }
   double D = det(a); EXPECT(x == D, "det is %g instead of %g", x, D);
   if(std::fabs(D) > 0.5) { B = A; EXPECT(B.inverse() == Status::eOK, "status of inverse"); eq("M * inverse", mul(a, val(B), n), ident(n), false); eq("inverse * M", mul(val(B), a, n), ident(n), false); }
}
static void pair(const M& a, const M& b, int k, int n)
{
   CASE("product of %s and %s", S(a).c_str(), S(b).c_str()); Matrix A = mk(a, k), B = mk(b, n); eq("product", val(A * B), mul(a, b, n));
   M c = rnd_m((int)a.size(), k), s = a, d = a; for(size_t i = 0; i < a.size(); i++) for(int j = 0; j < k; j++) { s[i][j] += c[i][j]; d[i][j] -= c[i][j]; }
   CASE("sum of %s and %s", S(a).c_str(), S(c).c_str()); Matrix C = mk(c, k); try { eq("sum", val(A + C), s); eq("difference", val(A - C), d); } catch(const Exception&) { fail("the sum is refused"); }
}
static void v3(double x, double y, double z, double a, double b, double c, double f)
{
   CASE("vertices (%g %g %g) and (%g %g %g), factor %g", x, y, z, a, b, c, f);
   Vertex3 u(x, y, z), v(a, b, c);
#define IS(e, X, Y, Z) do { Vertex3 q_ = (e); if(!near(q_.x, X) || !near(q_.y, Y) || !near(q_.z, Z)) fail(#e " gives %g %g %g instead of %g %g %g", q_.x, q_.y, q_.z, (double)(X), (double)(Y), (double)(Z)); } while(0)
   IS(u + v, x + a, y + b, z + c); IS(u - v, x - a, y - b, z - c); IS(f * u, f * x, f * y, f * z); IS(u * f, f * x, f * y, f * z); if(f != 0) IS(u / f, x / f, y / f, z / f); IS(u.scale(v), x * a, y * b, z * c); IS(u.crossProduct(v), y * c - z * b, z * a - x * c, x * b - y * a);
   Vertex3 w = u; w += v; IS(w, x + a, y + b, z + c); w = u; w -= v; IS(w, x - a, y - b, z - c); w = u; w += w; IS(w, 2 * x, 2 * y, 2 * z);
   EXPECT(u.dotProduct(v) == x * a + y * b + z * c, "dot product"); double l = std::sqrt(x * x + y * y + z * z); EXPECT(near(u.abs(), l), "length %g", u.abs()); EXPECT(u.biggest() == std::max(x, std::max(y, z)), "biggest is %g", u.biggest());
   w = u; w.normalize(); double k = l > 0 ? l : 1; IS(w, x / k, y / k, z / k); IS(u.normalized(), x / k, y / k, z / k); EXPECT((u == v) == (x == a && y == b && z == c) && (u != v) == !(u == v), "comparison"); EXPECT(u.isNull() == (l == 0), "isNull"); EXPECT(u.isOrthogonal(v) == (x * a + y * b + z * c == 0), "isOrthogonal"); EXPECT(u.isCollinear(v) == (y * c == z * b && z * a == x * c && x * b == y * a), "isCollinear");
   double co = std::cos(f), si = std::sin(f); w = u; w.rotateX(f); IS(w, x, y * co - z * si, y * si + z * co); w = u; w.rotateY(f); IS(w, x * co + z * si, y, z * co - x * si); w = u; w.rotateZ(f); IS(w, x * co - y * si, x * si + y * co, z); IS(u.rotatedZ(f), x * co - y * si, x * si + y * co, z);
   if(a || b || c) { Vertex3 n = v.normalized(); w = u; w.rotate(f, n); Vertex3 r = u * co + n.crossProduct(u) * si + n * (n.dotProduct(u) * (1 - co)); IS(w, r.x, r.y, r.z); }
   EXPECT(isLinearIndependent(u, v, Vertex3(f, 1, 2)) == (det({{x, a, f}, {y, b, 1}, {z, c, 2}}) != 0), "isLinearIndependent");
   Matrix m(u, v, Vertex3(f, 1, 2), true); IS(m * u, x * x + y * y + z * z, a * x + b * y + c * z, f * x + y + 2 * z); Matrix m2(u, v, Vertex3(f, 1, 2), false); IS(m2 * v, x * a + a * b + f * c, y * a + b * b + c, z * a + c * b + 2 * c);
   Vertex2 p(x, y), q(a, b);
#define IS2(e, X, Y) do { Vertex2 q_ = (e); if(!near(q_.x, X) || !near(q_.y, Y)) fail(#e " gives %g %g instead of %g %g", q_.x, q_.y, (double)(X), (double)(Y)); } while(0)
   IS2(p + q, x + a, y + b); IS2(p - q, x - a, y - b); IS2(f * p, f * x, f * y); IS2(p * f, f * x, f * y); if(f != 0) IS2(p / f, x / f, y / f); IS2(p.scale(q), x * a, y * b); EXPECT(p.crossProduct(q) == x * b - y * a && p.dotProduct(q) == x * a + y * b, "products"); l = std::sqrt(x * x + y * y); k = l > 0 ? l : 1; EXPECT(near(p.abs(), l), "length"); IS2(p.normalized(), x / k, y / k); IS2(p.rotated(f), x * co - y * si, x * si + y * co);
   Vertex2 o = p; o.rotate(f); IS2(o, x * co - y * si, x * si + y * co); o = p; o += q; IS2(o, x + a, y + b); o = p; o -= q; IS2(o, x - a, y - b); o = p; o.normalize(); IS2(o, x / k, y / k); EXPECT((p == q) == (x == a && y == b) && (p != q) == !(p == q), "comparison"); EXPECT(p.isCollinear(q) == (x * b == y * a) && p.isOrthogonal(q) == (x * a + y * b == 0) && p.isRightTo(q) == (x * b - y * a > 0) && p.isLeftTo(q) == (x * b - y * a < 0), "directions");
   if(x * b != y * a) { Vertex2 s = solveLinearSystem(p, q, Vertex2(z, c)); EXPECT(near(s.x * x + s.y * a, z) && near(s.x * y + s.y * b, c), "linear system"); }
   Matrix t; auto hom = [&](const char* n, const M& e) { eq(n, val(t), e, false); Vertex3 r = t.trans(v); double h[3]; for(int i = 0; i < 3; i++) h[i] = e[i][0] * a + e[i][1] * b + e[i][2] * c + e[i][3]; if(!near(r.x, h[0]) || !near(r.y, h[1]) || !near(r.z, h[2])) fail("%s moves to %g %g %g", n, r.x, r.y, r.z); };
   t.initIdentity(); hom("initIdentity", ident(4)); t.initMoving(u); hom("initMoving", {{1, 0, 0, x}, {0, 1, 0, y}, {0, 0, 1, z}, {0, 0, 0, 1}}); t.initScaling(u); hom("initScaling", {{x, 0, 0, 0}, {0, y, 0, 0}, {0, 0, z, 0}, {0, 0, 0, 1}}); t.initScaling(u, f); hom("initScaling", {{f, 0, 0, x - f * x}, {0, f, 0, y - f * y}, {0, 0, f, z - f * z}, {0, 0, 0, 1}}); t.initRotationZ(f); hom("initRotationZ", {{co, -si, 0, 0}, {si, co, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}});
   if(a || b || c) { Vertex3 n = v.normalized(); t.initRotation(u, n, f); IS(t.trans(u), x, y, z); Vertex3 w2 = u + v; w2 = t.trans(w2); IS(w2, x + a, y + b, z + c); t.initMirroring(u, n); IS(t.trans(u), x, y, z); IS(t.trans(u + n), x - n.x, y - n.y, z - n.z); }
}
static void vec(int n)
{
   std::vector<double> a(n), b(n); for(auto& x : a) x = (double)ri(-6, 6); for(auto& x : b) x = (double)ri(-6, 6); CASE("vectors %s %s", S({a}).c_str(), S({b}).c_str());
   Vector u(n), v(n); double dot = 0, sq = 0; for(int i = 0; i < n; i++) { u.data[i] = a[i]; v.data[i] = b[i]; dot += a[i] * b[i]; sq += a[i] * a[i]; }
   auto is = [&](const char* op, const Vector& g, std::function<double(int)> f) { if(g.m != n) { fail("%s has %lld rows", op, (long long)g.m); return; } for(int i = 0; i < n; i++) if(!near(g.data[i], f(i))) fail("element %d of %s is %g instead of %g", i, op, g.data[i], f(i)); };
   is("sum", u + v, [&](int i) { return a[i] + b[i]; }); is("difference", u - v, [&](int i) { return a[i] - b[i]; }); is("multiple", 3.0 * u, [&](int i) { return 3 * a[i]; }); EXPECT(u.dotProduct(v) == dot, "dot product"); EXPECT(near(u.abs(), std::sqrt(sq)), "length");
   Vector w = u; is("copy", w, [&](int i) { return a[i]; }); if(sq > 0) { w.normalize(); is("normalize", w, [&](int i) { return a[i] / std::sqrt(sq); }); } w = v; is("assignment", w, [&](int i) { return b[i]; }); w.ones(); is("ones", w, [&](int) { return 1; }); w.zeros(); is("zeros", w, [&](int) { return 0; }); EXPECT(throws([&]{ u + Vector(n + 1); }) && throws([&]{ u - Vector(n + 1); }), "sum of different dimensions");
}
void run()
{
   while(timeleft(0.3)) for(int i = 0; i < 20; i++) { int m = (int)ri(0, 5), n = coin(3) ? (int)ri(0, 5) : m; one(rnd_m(m, n), n); }
   while(timeleft(0.45)) { int m = (int)ri(0, 5), k = (int)ri(0, 5), n = (int)ri(0, 5); pair(rnd_m(m, k), rnd_m(k, n), k, n); }
   while(timeleft(0.55)) vec((int)ri(0, 9));
   std::vector<double> V = {-2, 0, 1, 3}; for(double h : vh_hf) if(V.size() < 6 && fabs(h) < 1e4) V.push_back((double)(int)h);
   for(double x : V) for(double y : V) for(double z : V) for(double a : V) for(double b : V) if(timeleft(0.85)) v3(x, y, z, a, b, pick(V), pick(V));
   while(timeleft()) { int m = (int)ri(0, 40), k = (int)ri(1, 30), n = (int)ri(0, 40); M a = rnd_m(m, k), b = rnd_m(k, n); one(a, k); pair(a, b, k, n); for(int i = 0; i < 9; i++) v3((double)ri(-99, 99), (double)ri(-99, 99), (double)ri(-9, 9), (double)ri(-99, 99), (double)ri(-9, 9), (double)ri(-99, 99), (double)ri(-30, 30) / 8); }
}

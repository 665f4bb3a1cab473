#include "vh.h"
struct M { int mode; int c[4]; int a; };     // the model of a colour: 0 grey, 1 rgb, 2 cmyk
static Color real(const M& m)
{
   if(m.mode == 0) return Color::fromGrey((uint8)m.c[0], (uint8)m.a);
   if(m.mode == 1) return Color::fromRgb((uint8)m.c[0], (uint8)m.c[1], (uint8)m.c[2], (uint8)m.a);
   return Color::fromCmyk((uint8)m.c[0], (uint8)m.c[1], (uint8)m.c[2], (uint8)m.c[3], (uint8)m.a);
}
static int used(int mode) { return mode == 0 ? 1 : mode == 1 ? 3 : 4; }
static std::string sh(const M& m) { char b[80]; snprintf(b, sizeof b, "%s(%d,%d,%d,%d;%d)", m.mode == 0 ? "grey" : m.mode == 1 ? "rgb" : "cmyk", m.c[0], m.c[1], m.c[2], m.c[3], m.a); return b; }
static bool same(const Color& c, const M& m)
{
   if((int)c.mode() != m.mode || c.alpha() != m.a) return false;
   if(m.mode == 0) return c.grey() == m.c[0];
   if(m.mode == 1) return c.red() == m.c[0] && c.green() == m.c[1] && c.blue() == m.c[2];
   return c.cyan() == m.c[0] && c.magenta() == m.c[1] && c.yellow() == m.c[2] && c.key() == m.c[3];
}
static std::string rs(const Color& c) { M m = {(int)c.mode(), {c.cyan(), c.magenta(), c.yellow(), c.mode() == ColorMode::kCmyk ? c.key() : 0}, c.alpha()}; return sh(m); }
static void conv(const M& m)
{
   CASE("conversions of %s", sh(m).c_str());
   Color c = real(m); EXPECT(same(c, m), "created colour is %s", rs(c).c_str());
   Color d(c), e; EXPECT(same(e, M{1, {0, 0, 0, 0}, 255}), "default colour is %s", rs(e).c_str()); e = c; e = *&e; EXPECT(same(d, m) && same(e, m), "copies are %s %s", rs(d).c_str(), rs(e).c_str());
   bool w = true; for(int i = 0; i < used(m.mode); i++) if(m.c[i] != (m.mode == 2 ? 0 : 255)) w = false; EXPECT(c.isWhite() == w, "isWhite %d", c.isWhite());
   M r = {1, {m.c[0], m.c[1], m.c[2], 0}, m.a};
   if(m.mode == 0) r.c[1] = r.c[2] = m.c[0];
   if(m.mode == 2) for(int i = 0; i < 3; i++) r.c[i] = 255 - std::min(255, m.c[i] + m.c[3]);
   d.toRgb(); EXPECT(same(d, r), "toRgb gives %s", rs(d).c_str());
   d = c; d.toGreyScale(); EXPECT((int)d.mode() == 0 && d.alpha() == (m.mode == 0 ? m.a : 255), "toGreyScale gives %s", rs(d).c_str());
   if(m.mode == 0) EXPECT(d.grey() == m.c[0], "toGreyScale gives %s", rs(d).c_str());
   else EXPECT(std::fabs(d.grey() - (0.2126 * r.c[0] + 0.7152 * r.c[1] + 0.0722 * r.c[2])) <= 0.501, "toGreyScale gives %s", rs(d).c_str());
   d = c; d.toCmyk(); EXPECT((int)d.mode() == 2 && d.alpha() == (m.mode == 2 ? m.a : 255), "toCmyk gives %s", rs(d).c_str());
   if(m.mode == 2) EXPECT(same(d, m), "toCmyk gives %s", rs(d).c_str());
   if(m.mode == 0) EXPECT(d.key() == 255 - m.c[0] && d.cyan() == 0 && d.magenta() == 0 && d.yellow() == 0, "toCmyk gives %s", rs(d).c_str());
   if(m.mode == 1) {
      int mx = std::max(m.c[0], std::max(m.c[1], m.c[2])); EXPECT(std::abs(d.key() - (255 - mx)) <= 1, "toCmyk gives %s", rs(d).c_str());
      int v[3] = {d.cyan(), d.magenta(), d.yellow()};
      for(int i = 0; i < 3; i++) if(mx == 0) EXPECT(v[i] == 0, "toCmyk gives %s", rs(d).c_str()); else EXPECT(std::fabs(v[i] - 255.0 * (mx - m.c[i]) / mx) <= 1.001, "toCmyk gives %s", rs(d).c_str());
   }
}
static void pair(const M& x, const M& y)
{
   CASE("%s and %s", sh(x).c_str(), sh(y).c_str());
   Color a = real(x), b = real(y); bool eq = x.mode == y.mode && x.a == y.a; for(int i = 0; eq && i < used(x.mode); i++) eq = x.c[i] == y.c[i];
   EXPECT((a == b) == eq && (a != b) == !eq && a == a && !(a != a), "equality");
   Color s = a + b, d = a - b; int sc[4] = {s.cyan(), s.magenta(), s.yellow(), x.mode == 2 ? s.key() : 0}, dc[4] = {d.cyan(), d.magenta(), d.yellow(), x.mode == 2 ? d.key() : 0};
   if(x.mode == y.mode) for(int i = 0; i < used(x.mode); i++) EXPECT(sc[i] == ((x.c[i] + y.c[i]) & 255) && dc[i] == ((x.c[i] - y.c[i]) & 255), "sum %s difference %s", rs(s).c_str(), rs(d).c_str());
   EXPECT(s.mode() == a.mode() && d.mode() == a.mode() && s.alpha() == ((x.a + y.a) & 255) && d.alpha() == ((x.a - y.a) & 255), "sum %s difference %s", rs(s).c_str(), rs(d).c_str());
}
static void mix(const M& x, const M& y, int w)
{
   CASE("blend of %s and %s with %d", sh(x).c_str(), sh(y).c_str(), w);
   Color r = blend(real(x), real(y), (uint8)w); int v[3] = {r.red(), r.green(), r.blue()};
   EXPECT(r.mode() == ColorMode::kRgb, "mode");
   bool op = x.a == 255 && y.a == 255;
   EXPECT(r.alpha() == (op ? 255 : y.a + (255 - y.a) * x.a / 255), "alpha %d", r.alpha());
   if(x.a || y.a) for(int i = 0; i < 3; i++) {
      EXPECT(v[i] >= std::min(x.c[i], y.c[i]) && v[i] <= std::max(x.c[i], y.c[i]), "channel %d is %d", i, v[i]);
      if(op) { EXPECT(v[i] == (w * y.c[i] + (255 - w) * x.c[i]) / 255, "channel %d is %d", i, v[i]); if(w == 0) EXPECT(v[i] == x.c[i], "weight 0: channel %d is %d", i, v[i]); if(w == 255) EXPECT(v[i] == y.c[i], "weight 255: channel %d is %d", i, v[i]); }
      else { double A = y.a / 255.0, B = x.a / 255.0, C = (A * y.c[i] + (1 - A) * B * x.c[i]) / (A + (1 - A) * B); EXPECT(std::fabs(v[i] - C) <= 1.01, "channel %d is %d instead of %g", i, v[i], C); }
   }
   float p = (float)w / 255.0f; if(w == 128) p = 0.5f;
   Color t = interpolate(real(x), real(y), p); int u[4] = {t.red(), t.green(), t.blue(), t.alpha()}, xx[4] = {x.c[0], x.c[1], x.c[2], x.a}, yy[4] = {y.c[0], y.c[1], y.c[2], y.a};
   for(int i = 0; i < 4; i++) { EXPECT(u[i] >= std::min(xx[i], yy[i]) && u[i] <= std::max(xx[i], yy[i]), "interpolate: channel %d is %d", i, u[i]); EXPECT(std::fabs(u[i] - (xx[i] + (yy[i] - xx[i]) * (double)p)) <= 1.001, "interpolate: channel %d is %d", i, u[i]); if(w == 0) EXPECT(u[i] == xx[i], "interpolate at 0: %d", u[i]); if(w == 255) EXPECT(u[i] == yy[i], "interpolate at 1: %d", u[i]); }
}
static void sets(const M& m)
{
   CASE("setters on %s", sh(m).c_str());
   Color c; c.setMode((ColorMode)m.mode); c.setAlpha((uint8)m.a);
   if(m.mode == 0) c.setGrey((uint8)m.c[0]);
   if(m.mode == 1) { c.setRed((uint8)m.c[0]); c.setGreen((uint8)m.c[1]); c.setBlue((uint8)m.c[2]); }
   if(m.mode == 2) { c.setCyan((uint8)m.c[0]); c.setMagenta((uint8)m.c[1]); c.setYellow((uint8)m.c[2]); c.setKey((uint8)m.c[3]); }
   EXPECT(same(c, m), "gives %s", rs(c).c_str());
}
static M rm(int mode) { auto b = [] { return coin(4) ? (coin() ? 0 : 255) : (int)ri(0, 255); }; M m = {mode, {b(), b(), b(), b()}, coin() ? 255 : b()}; if(mode != 2) m.c[3] = 0; if(mode == 0) m.c[1] = m.c[2] = 0; return m; }
void run()
{
   std::vector<int> B = {0, 1, 2, 127, 128, 254, 255}; for(auto h : vh_hi) if(h >= 0 && h < 256 && B.size() < 14) B.push_back((int)h);
   for(int g = 0; g < 256; g++) for(int a : B) { conv(M{0, {g, 0, 0, 0}, a}); sets(M{0, {g, 0, 0, 0}, a}); conv(M{1, {g, g, g, 0}, a}); }
   for(int r : B) for(int g : B) for(int b : B) { conv(M{1, {r, g, b, 0}, 255}); for(int k : B) conv(M{2, {r, g, b, k}, r}); sets(M{1, {r, g, b, 0}, b}); sets(M{2, {r, g, b, r}, 7}); }
   for(int x = 0; x < 256; x++) for(int y : B) for(int w : B) { mix(M{1, {x, y, 255 - x, 0}, 255}, M{1, {y, x, x, 0}, 255}, w); mix(M{1, {x, y, y, 0}, y}, M{1, {y, x, 255, 0}, w}, w); }
   for(int x = 0; x < 256; x++) for(int y : B) mix(M{1, {255, x, y, 0}, x}, M{1, {255, y, 0, 0}, y}, 255);
   while(timeleft()) for(int i = 0; i < 300; i++) {
      M m = rm((int)ri(0, 2)), n = coin(3) ? m : rm((int)ri(0, 2)); if(coin()) { int k = (int)ri(0, 4); if(k == 4) n.a ^= 1; else if(k < used(n.mode)) n.c[k] ^= 1; }
      conv(m); pair(m, n); sets(n); mix(rm(1), rm(1), coin(4) ? (coin() ? 0 : 255) : (int)ri(0, 255));
      if(coin(30)) { float h, s, v; CASE("hsv of %s", sh(m).c_str()); real(m).hsvModel(h, s, v); EXPECT(h >= 0 && h <= 360 && s >= 0 && s <= 1 && v >= 0 && v <= 1, "hsv %g %g %g", h, s, v); }
   }
}

#include "vh.h"
// oracle: counting days through the proleptic Gregorian calendar (era based algorithm)
static int64_t civ(int64_t y, int m, int d)
{
   y -= m <= 2; int64_t era = (y >= 0 ? y : y - 399) / 400; int64_t yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
   return era * 146097 + doe - 719468;
}
static int dim(int64_t y, int m) { static const int t[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) ? 29 : t[m - 1]; }
static const int64_t MSD = 86400000;
static void check(const Date& t, int64_t y, int m, int d, int h, int mi, int s, int ms)
{
   int64_t dn = civ(y, m, d), tm = dn * MSD + ((h * 60 + mi) * 60 + s) * 1000LL + ms;
   EXPECT(t.time() == tm, "time is %lld, expected %lld", (long long)t.time(), (long long)tm);
   EXPECT(t.year() == y && t.utcYear() == y, "year %lld", (long long)t.year());
   EXPECT(t.month() == m - 1 && t.utcMonth() == m - 1, "month %lld", (long long)t.month());
   EXPECT(t.date() == d && t.utcDate() == d, "day of the month %lld", (long long)t.date());
   int64_t wd = ((dn + 4) % 7 + 7) % 7; EXPECT(t.day() == wd && t.utcDay() == wd, "day of the week %lld, expected %lld", (long long)t.day(), (long long)wd);
   EXPECT(t.dayOfYear() == dn - civ(y, 1, 1), "day of the year %lld", (long long)t.dayOfYear());
   EXPECT(t.hours() == h && t.utcHours() == h && t.minutes() == mi && t.utcMinutes() == mi && t.seconds() == s && t.utcSeconds() == s && t.milliseconds() == ms && t.utcMilliseconds() == ms, "time of day %lld:%lld:%lld.%lld", (long long)t.hours(), (long long)t.minutes(), (long long)t.seconds(), (long long)t.milliseconds());
   if(y >= 0 && y <= 9999) { char b[40]; snprintf(b, sizeof b, "%04d-%02d-%02dT%02d:%02d:%02d.%03dZ", (int)y, m, d, h, mi, s, ms); EXPECT(val(t.toString()) == asc(b), "text %s", CS(val(t.toString()))); }
}
static void one(int64_t y, int m, int d, int h, int mi, int s, int ms)
{
   CASE("%lld-%02d-%02d %02d:%02d:%02d.%03d", (long long)y, m, d, h, mi, s, ms);
   if(y >= 0 && y <= 65535) { check(Date((uint16)y, (uint16)(m - 1), (uint16)d, (uint16)h, (uint16)mi, (uint16)s, (uint16)ms), y, m, d, h, mi, s, ms); check(Date((uint16)y, (uint16)(m - 1), (uint16)d), y, m, d, 0, 0, 0, 0); }
   Date t(civ(y, m, d) * MSD + ((h * 60 + mi) * 60 + s) * 1000LL + ms); check(t, y, m, d, h, mi, s, ms);
   Date c(t); check(c, y, m, d, h, mi, s, ms); Date e((int64)5); e.setTime(t.time()); check(e, y, m, d, h, mi, s, ms); EXPECT(!e.isEmpty(), "empty");
}
static void cmp(int64_t a, int64_t b)
{
   CASE("comparison of the times %lld and %lld", (long long)a, (long long)b);
   Date x(a), y(b); EXPECT((x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b) && (x == y) == (a == b) && (x != y) == (a != b), "operators");
   int c = x.compareTo(y); EXPECT((c < 0) == (a < b) && (c > 0) == (a > b), "compareTo %d", c); EXPECT(x.isEmpty() == (a == INT64_MIN), "isEmpty");
}
void run()
{
   static const int tods[][4] = {{0, 0, 0, 0}, {23, 59, 59, 999}, {0, 0, 0, 1}, {12, 34, 56, 789}, {1, 0, 0, 0}, {0, 59, 59, 999}, {11, 59, 0, 500}};
   for(int64_t y : {1582, 1599, 1600, 1601, 1699, 1700, 1799, 1800, 1899, 1900, 1901, 1903, 1904, 1967, 1968, 1969, 1970, 1971, 1972, 1973, 1999, 2000, 2001, 2004, 2023, 2024, 2099, 2100, 2101, 2399, 2400, 1, 0, -1, -4, -100, -400, -401, 3, 4, 99, 100, 400, 9999, 10000})
      for(int m = 1; m <= 12; m++) for(int d = 1; d <= dim(y, m); d++) { auto& t = tods[(d + m) % 7]; if(y > 1500 && y < 2500 || d < 3 || d > 26) one(y, m, d, t[0], t[1], t[2], t[3]); }
   for(int64_t y : {5, 15, 1900, 2000, 1969, 2023, 65535}) for(int m = 13; m < 60; m += 5) { CASE("month %d of year %lld", m, (long long)y); Date t((uint16)y, (uint16)(m - 1), 1); EXPECT(t.time() == civ(y + (m - 1) / 12, (m - 1) % 12 + 1, 1) * MSD, "time %lld", (long long)t.time()); }
   for(int64_t y : {1900, 2000, 1969, 2023}) for(int d = 0; d < 800; d += 7) { CASE("day %d of year %lld", d, (long long)y); Date t((uint16)y, 0, (uint16)d, 30, 70, 65, 2000); EXPECT(t.time() == (civ(y, 1, 1) + d - 1) * MSD + 30 * 3600000LL + 70 * 60000 + 65000 + 2000, "time %lld", (long long)t.time()); }
   auto E = edge64(); for(auto a : E) for(int i = 0; i < 20; i++) { cmp(a, pick(E)); cmp(a, a); }
   for(auto t : vh_hi) if(t > -4000000000000000LL && t < 4000000000000000LL) { int64_t dn = (t >= 0 ? t : t - MSD + 1) / MSD; int64_t y = 1970 + dn / 366 - 2; while(civ(y + 1, 1, 1) <= dn) y++; while(civ(y, 1, 1) > dn) y--; int m = 1; while(m < 12 && civ(y, m + 1, 1) <= dn) m++; int64_t r = t - dn * MSD; one(y, m, (int)(dn - civ(y, m, 1)) + 1, (int)(r / 3600000), (int)(r / 60000 % 60), (int)(r / 1000 % 60), (int)(r % 1000)); }
   for(double s : {0.0, 1.0, -1.0, 0.5, 86400.0, -978307200.0, 1e9, -1e9}) { CASE("fromNSDate(%g)", s); EXPECT(Date::fromNSDate(s).time() == 978307200000LL + (int64_t)(s * 1000), "time %lld", (long long)Date::fromNSDate(s).time()); }
   while(timeleft()) for(int i = 0; i < 100; i++) {
      int64_t y = coin(3) ? ri(-3000, 12000) : ri(1800, 2200); int m = (int)ri(1, 12), d = (int)ri(1, dim(y, m)); one(y, m, d, (int)ri(0, 23), (int)ri(0, 59), (int)ri(0, 59), (int)ri(0, 999)); if(coin(20)) one(ri(0, 65535), m, std::min(d, 28), 1, 2, 3, 4); cmp(rint64(), rint64()); }
}

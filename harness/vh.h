// Common part of the replay harnesses: bounded checks of the real code against independent oracles.
#pragma once
#include "core/Core.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <random>
#include <functional>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <chrono>
#include <unistd.h>
#include <signal.h>
#include <sanitizer/common_interface_defs.h>
using namespace jm;
typedef std::u16string U;
typedef std::vector<uint8_t> Bytes;

static char vh_case[16384];
static std::mt19937_64 vh_rng;
static bool vh_thorough;
static double vh_limit = 20;
static std::chrono::steady_clock::time_point vh_t0;
static uint64_t vh_cases = 0;
static std::map<std::string, uint64_t> vh_stats;
static std::vector<std::string> vh_samples;
static volatile uint64_t vh_tick = 0, vh_lasttick = 0;
static int vh_fails = 0;
static std::vector<int64_t> vh_hi;      // hints: integers / strings / reals of the verifier's counterexamples
static std::vector<std::vector<int64_t>> vh_hs;
static std::vector<double> vh_hf;

static void vh_death() { fprintf(stderr, "\nLASTCASE %s\n", vh_case); printf("\nLASTCASE %s\n", vh_case); fflush(stdout); }
static void vh_alarm(int)
{
   if(vh_tick == vh_lasttick) { static const char m[] = "\nFAIL the following case does not terminate within its time limit: "; (void)!write(1, m, sizeof(m) - 1); (void)!write(1, vh_case, strlen(vh_case)); (void)!write(1, "\n", 1); _exit(3); }
   vh_lasttick = vh_tick; alarm(20);
}
static void vh_segv(int s) { static const char m[] = "\nFAIL crash in case: "; (void)!write(1, m, sizeof(m) - 1); (void)!write(1, vh_case, strlen(vh_case)); (void)!write(1, "\n", 1); _exit(4); }

// name of the case being executed; printed when something goes wrong
#define CASE(...) do { vh_cases++; vh_tick++; snprintf(vh_case, sizeof vh_case, __VA_ARGS__); if(vh_cases % 49999 == 7 && vh_samples.size() < 8) vh_samples.push_back(vh_case); } while(0)
static void fail(const char* f, ...)
{
   va_list a; va_start(a, f); char b[16384]; vsnprintf(b, sizeof b, f, a); va_end(a);
   for(char* p = b; *p; p++) if(*p == '\n') *p = ' ';
   printf("FAIL %s | %s\n", vh_case, b); fflush(stdout);
   if(++vh_fails >= 3) _exit(1);
}
#define EXPECT(c, ...) do { if(!(c)) fail(__VA_ARGS__); } while(0)

static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - vh_t0).count(); }
static bool timeleft(double frac = 1.0) { return elapsed() < vh_limit * frac; }
static uint64_t rnd() { return vh_rng(); }
static int64_t ri(int64_t lo, int64_t hi) { return lo + (int64_t)(vh_rng() % (uint64_t)(hi - lo + 1)); }
template<class T> static const T& pick(const std::vector<T>& v) { return v[vh_rng() % v.size()]; }
static bool coin(int n = 2) { return vh_rng() % n == 0; }

static std::string show(const U& u)
{
   std::string s = "\""; size_t n = 0;
   for(char16_t c : u) { if(n++ > 80) { s += "..."; break; } if(c >= 32 && c < 127 && c != '"' && c != '\\') s += (char)c; else { char b[12]; snprintf(b, 12, "\\u%04X", (unsigned)c); s += b; } }
   return s + "\"(" + std::to_string(u.size()) + ")";
}
static std::string show(const Bytes& u)
{
   std::string s = "["; size_t n = 0;
   for(uint8_t c : u) { if(n++ > 80) { s += "..."; break; } char b[6]; snprintf(b, 6, n > 1 ? " %02X" : "%02X", c); s += b; }
   return s + "](" + std::to_string(u.size()) + ")";
}
#define CS(x) show(x).c_str()
static String mk(const U& u) { return String((const uint16*)u.data(), (int64)u.size()); }
static U asc(const char* s) { U r; while(*s) r += (char16_t)(unsigned char)*s++; return r; }
static U asc(const std::string& s) { return asc(s.c_str()); }
static U val(const String& s)
{
   U r; int64 n = s.size();
   if(n < 0) { fail("negative string length %lld", (long long)n); return r; }
   for(int64 i = 0; i < n; i++) r += (char16_t)s.charAt(i).unicode();
   return r;
}
static std::string u8s(const U& u) { std::string s; for(char16_t c : u) s += (char)c; return s; }
// runs f; true when it threw a jm exception
template<class F> static bool throws(F f)
{
   try { f(); } catch(const Exception&) { return true; } catch(const std::exception& e) { return true; }
   return false;
}
static std::vector<int64_t> intpool(int64_t n)
{
   std::vector<int64_t> v = {0, 1, 2, n - 1, n, n + 1, n / 2, -1, INT64_MIN, INT64_MAX, INT64_MIN + 1, INT64_MAX - 1, (int64_t)1 << 31, (int64_t)1 << 32, -((int64_t)1 << 31), ((int64_t)1 << 32) + 1, ((int64_t)1 << 31) - 1};
   for(int64_t x : vh_hi) v.push_back(x);
   return v;
}
static std::vector<int64_t> edge64()
{
   std::vector<int64_t> v;
   for(int b = 0; b < 64; b++) for(int d = -2; d <= 2; d++) { v.push_back((int64_t)((uint64_t)1 << b) + d); v.push_back(-(int64_t)((uint64_t)1 << b) + d); }
   uint64_t p = 1; for(int k = 0; k < 20; k++) { for(int d = -1; d <= 1; d++) { v.push_back((int64_t)p + d); v.push_back(-(int64_t)p + d); } p *= 10; }
   v.push_back(INT64_MIN); v.push_back(INT64_MAX);
   for(int64_t x : vh_hi) v.push_back(x);
   return v;
}
static int64_t rint64() { int s = (int)(rnd() % 64); int64_t x = (int64_t)(rnd() >> s); return coin() ? x : -x; }

void run();        // the harness proper
int main()
{
   const char* e;
   vh_rng.seed((e = getenv("VH_SEED")) ? strtoull(e, 0, 10) : 1);
   vh_thorough = (e = getenv("VH_TIER")) && !strcmp(e, "thorough");
   if((e = getenv("VH_LIMIT"))) vh_limit = atof(e);
   if((e = getenv("VH_HINTS")) && *e) {
      std::ifstream f(e); std::string l;
      while(std::getline(f, l)) {
         std::istringstream is(l); std::string k; is >> k;
         if(k == "i") { int64_t x; if(is >> x) vh_hi.push_back(x); }
         if(k == "f") { double x; if(is >> x) vh_hf.push_back(x); }
         if(k == "s") { std::vector<int64_t> v; int64_t x; while(is >> x) v.push_back(x); vh_hs.push_back(v); }
      }
      if(vh_hi.size() > 24) vh_hi.resize(24);
      if(vh_hs.size() > 24) vh_hs.resize(24);
   }
   __sanitizer_set_death_callback(vh_death);
   signal(SIGALRM, vh_alarm); alarm(20);
   vh_t0 = std::chrono::steady_clock::now();
   System::init("");
   try { run(); }
   catch(const Exception& ex) { U m; try { m = val(ex.errorMessage()); } catch(...) {} fail("unexpected exception %s", CS(m)); }
   catch(const std::exception& ex) { fail("unexpected std::exception %s", ex.what()); }
   catch(...) { fail("unexpected exception"); }
   printf("STAT cases %llu\n", (unsigned long long)vh_cases);
   for(auto& s : vh_stats) printf("STAT %s %llu\n", s.first.c_str(), (unsigned long long)s.second);
   for(auto& s : vh_samples) printf("SAMPLE %s\n", s.c_str());
   fflush(stdout);
   _exit(vh_fails ? 1 : 0);
}

// ---- string pools
static std::vector<U> vh_hintstrings()
{
   std::vector<U> v;
   for(auto& h : vh_hs) { U u; for(int64_t x : h) u += (char16_t)x; v.push_back(u); }
   return v;
}
static U rstr(int maxlen, int alpha = 3)
{
   U u; int n = (int)(rnd() % (maxlen + 1));
   int mode = (int)(rnd() % 8);
   for(int i = 0; i < n; i++) {
      if(mode < 5) u += (char16_t)("abAB \tz%0"[rnd() % (alpha > 9 ? 9 : alpha)]);
      else if(mode == 5) u += (char16_t)(32 + rnd() % 224);
      else if(mode == 6) u += (char16_t)(rnd() & 0xFFFF);
      else { static const uint16_t sp[] = {0, 1, 0x20, 0x09, 0x0A, 0x0D, 0x08, 0x0C, 0x0B, 0xA0, 0xC4, 0xE4, 0xD6, 0xF6, 0xDC, 0xFC, 0xDF, 0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF, 'A', 'Z', '[', '@', 'a', 'z', '`', '{'}; u += (char16_t)sp[rnd() % (sizeof sp / sizeof *sp)]; }
   }
   return u;
}
// all strings over {a,b} up to length n
static std::vector<U> allstr(int n, const char* al = "ab")
{
   std::vector<U> v = {U()}; size_t b = 0; int k = (int)strlen(al);
   for(int l = 1; l <= n; l++) { size_t e = v.size(); for(size_t i = b; i < e; i++) for(int c = 0; c < k; c++) v.push_back(v[i] + (char16_t)al[c]); b = e; }
   return v;
}

#include "vh.h"
// history of operations on a stream over n bytes against a model; the memory is an exact allocation, so that ASan sees every access outside
static void history(int n, int steps, bool own)
{
   uint8* mem = new uint8[n]; Bytes m; for(int i = 0; i < n; i++) { mem[i] = (uint8)(i * 7 + 1); m.push_back(mem[i]); }
   std::string h; int64_t pos = 0, wl = 0; CASE("stream over %d bytes", n);
   MemoryStream s(mem, n, own);
   for(int k = 0; k < steps; k++) {
      int64_t v; switch(rnd() % 6) { case 0: v = INT64_MAX - ri(0, 3); break; case 1: v = ri(-3, n + 3); break; case 2: v = n - pos; break; case 3: v = n - pos + ri(-2, 2); break; case 4: v = ri(0, 4); break; default: v = INT64_MIN + ri(0, 3); }
      char b[60]; int op = (int)(rnd() % 8); static const char* nm[] = {"read", "readFully", "readFully", "write", "write", "seek", "move", "reopen"};
      snprintf(b, 60, " %s(%lld)", nm[op], (long long)v); h += b; CASE("stream over %d bytes:%s", n, h.c_str());
      int64_t left = n - pos, t = v < 0 ? 0 : std::min(v, left);
      if(op == 0) {
         Bytes buf((size_t)t, 0xEE); std::unique_ptr<uint8[]> x(new uint8[t]); int64_t r = s.read(x.get(), v);
         EXPECT(r == t, "read returns %lld", (long long)r); EXPECT(Bytes(x.get(), x.get() + t) == Bytes(m.begin() + pos, m.begin() + pos + t), "wrong bytes"); pos += t;
      } else if(op <= 2) {
         int64_t bs = ri(0, n + 3); ByteArray a(bs, 0xEE); int64_t w = op == 1 ? v : bs; int64_t e = std::min<int64_t>(std::max<int64_t>(std::min(w, bs), 0), left);
         int64_t r = op == 1 ? s.readFully(a, v) : ((Stream&)s).readFully(a);
         EXPECT(r == e, "readFully into %lld bytes returns %lld", (long long)bs, (long long)r); EXPECT(a.size() == bs, "array resized");
         for(int64_t i = 0; i < bs; i++) EXPECT(a[i] == (i < e ? m[pos + i] : 0xEE), "readFully: byte %lld is %d", (long long)i, a[i]);
         pos += e;
      } else if(op <= 4) {
         std::unique_ptr<uint8[]> x(new uint8[t]); for(int64_t i = 0; i < t; i++) x[i] = (uint8)rnd();
         int64_t r = s.write(x.get(), v); EXPECT(r == t, "write returns %lld", (long long)r);
         for(int64_t i = 0; i < t; i++) m[pos + i] = x[i];
         pos += t; if(t > 0) wl = std::max(wl, pos);
      } else if(op == 5) { s.seek(v); if(v >= 0 && v < n) pos = v; }
      else if(op == 6) { s.move(v); __int128 q = (__int128)pos + v; if(q >= 0 && q < n) pos = (int64_t)q; }
      else if(coin()) { s.open(FileMode::kRead); pos = 0; wl = 0; } else { s.close(); pos = 0; }
      EXPECT(s.position() == pos, "position %lld instead of %lld", (long long)s.position(), (long long)pos); EXPECT(s.size() == n, "size"); EXPECT(s.mWritelength == wl, "write length %lld instead of %lld", (long long)s.mWritelength, (long long)wl);
      EXPECT(Bytes(s.buffer(), s.buffer() + n) == m, "memory is %s instead of %s", CS(Bytes(s.buffer(), s.buffer() + n)), CS(m));
   }
   if(!own) delete[] mem;
}
void run()
{
   for(int n = 0; n < 12; n++) for(int i = 0; i < 300; i++) history(n, 8, coin());
   while(timeleft()) history((int)ri(0, coin(20) ? 3000 : 40), (int)ri(1, 25), coin());
}

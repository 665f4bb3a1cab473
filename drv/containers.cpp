// makes the compiler emit the member functions of the container templates under contract
#include "PrecompiledCore.hpp"
using namespace jm;
typedef Array<int64> AI;
typedef Stack<int64> SI;
extern "C" void vp_array(int64 n, const AI& o, int64 i, int64 x)
{
   AI a; AI b(n); AI c(o); a = o; b.set(i, x); c[i] = b.get(i); (void)a.size();
}
extern "C" void vp_stack(int64 x)
{
   SI s; s.push(x); s.top(); s.topRef(); s.top2(); s.top3(); s.pop(); s.reverse(); s.size(); s.hasElements(); s.clear();
}

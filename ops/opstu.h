// One operation TU: OPFILE names the list, OPREG the registration function.
#include "ops.h"
namespace {
template <class R> struct Ops
{
	OPS_TYPES
#define OP(NAME, ...) static void NAME(const void* vp, u64 k, Out& o) { const A<R> a = { *(const Pool<R>*)vp, k }; (void)a; __VA_ARGS__ }
#include OPFILE
#undef OP
	static void reg()
	{
		OpDef d; d.real = (int)sizeof(R);
#define OP(NAME, ...) d.name = #NAME; d.f = &Ops<R>::NAME; ops_register(d);
#include OPFILE
#undef OP
	}
};
}
void OPREG() { Ops<float>::reg(); Ops<double>::reg(); }

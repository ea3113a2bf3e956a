// thin entry points; every body is /repo's
#include <new>
#include <pv/typeCast.h>
using namespace epics::pvData;
extern "C" void cv_vec(size_t n, int to, void *d, int from, const void *s) { castUnsafeV(n, ScalarType(to), d, ScalarType(from), s); }
extern "C" float cv_d2f(double x) { return castUnsafe<float>(x); }

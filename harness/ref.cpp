// Training against a reference model (P21), first group of architectures
#include "ref.h"
namespace sim { std::ostream nullout(nullptr); }
#define S21(A) static void rd_##A() { t_ref<A, Rw<double>>(); } SIM_SCENARIO(P21, A##_d, rd_##A, nullptr, 3)
S21(AFc) S21(ADo) S21(APh) S21(APt) S21(APo) S21(APa)

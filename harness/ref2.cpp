// Training against a reference model (P21), second group of architectures: the other activations, losses and penalties, nested packs, floats
#include "arch2.h"
namespace sim { std::ostream nullout(nullptr); }
#define S21(A) static void rd_##A() { t_ref<A, Rw<double>>(); } SIM_SCENARIO(P21, A##_d, rd_##A, nullptr, 3)
S21(GRelu) S21(GLog) S21(GLl) S21(GDo) S21(GPen) S21(GNest) S21(GGate) S21(GGateU)
static void rf_ADo() { t_ref<ADo, Rw<float>>(); } SIM_SCENARIO(P21, ADo_f, rf_ADo, nullptr, 2)
static void rs_AFc() { t_ref<AFc, Rs<double>>(); } SIM_SCENARIO(P21, AFc_s, rs_AFc, nullptr, 2)

// Second group of architectures with their descriptions: the other activations, losses and penalties, nested packs
#pragma once
#include "ref.h"
// three layers of any activations
template<class L1_, class L2_, class O_, class I> struct Net3 : Base<I> { typedef typename I::real_t R; layer_input<I> in; L1_ h1; L2_ h2; O_ out; layers<layer_input<I>, L1_, L2_, O_> lp; Net3(const Cfg& c) : in(c.xw), h1(c.h1, (R)c.lr), h2(c.h2, (R)c.lr), out(c.yw, (R)c.lr), lp(in, h1, h2, out) {} };
#define GW_ grad_works<I>
struct GRelu { static constexpr const char* name = "relu-elu-identity"; static constexpr bool onehot = false; template<class I, class R = typename I::real_t> using N = Net3<LFC<activation::relu<R>, GW_>, LFC<activation::elu<R, 500>, GW_>, layer_output<activation::identity_quad_loss<R>, GW_>, I>; template<class I> struct T : N<I> { using N<I>::N; T(const Cfg& c) : N<I>(c) {} }; };
template<class S> static Nd describe(GRelu*, S& s) { auto& a = *s.a; return seq({ fc(li(s, a.h1), Relu), fc(li(s, a.h2), Elu, .5), outl(fc(li(s, a.out), Ident), Quad) }); }
struct GLog { static constexpr const char* name = "elogu-logu-softsigm-xentropy"; static constexpr bool onehot = true; template<class I, class R = typename I::real_t> using N = Net3<LFC<activation::elogu<R, 500, 3000>, GW_>, LFC<activation::logu<R, 3000>, GW_>, layer_output<activation::softsigm_xentropy_loss<R, 2000>, GW_>, I>; template<class I> struct T : N<I> { T(const Cfg& c) : N<I>(c) {} }; };
template<class S> static Nd describe(GLog*, S& s) { auto& a = *s.a; return seq({ fc(li(s, a.h1), Elogu, .5, 3), fc(li(s, a.h2), Logu, 3), outl(fc(li(s, a.out), Softsigm, 2), XEnt) }); }
struct GLl { static constexpr const char* name = "loglogu-softsign-weighted"; static constexpr bool onehot = false; template<class I, class R = typename I::real_t> using N = Net3<LFC<activation::loglogu<R, 3000, 2000>, GW_>, LFC<activation::softsign<R, 500000, 2000000>, GW_>, layer_output<activation::identity_custom_loss<activation::Linear_Loss_quadWeighted2_FP<R, 1500000, 500000, 500000>>, GW_>, I>; template<class I> struct T : N<I> { T(const Cfg& c) : N<I>(c) {} }; };
template<class S> static Nd describe(GLl*, S& s) { auto& a = *s.a; s.m->fpw = 2.25; s.m->fpo = .25; return seq({ fc(li(s, a.h1), Loglogu, 3, 2), fc(li(s, a.h2), Softsign, .5, 2), outl(fc(li(s, a.out), Ident), QuadFP) }); }
struct GDo { static constexpr const char* name = "dropout of leaky relu and elogu"; static constexpr bool onehot = false; template<class I, class R = typename I::real_t> using N = Net3<LFC_DO<activation::very_leaky_relu_5p5<R>, GW_>, LFC_DO<activation::elogu<R>, GW_>, layer_output<activation::sigm_quad_loss<R, weights_init::XavierFour, true>, GW_>, I>; template<class I> struct T : N<I> { T(const Cfg& c) : N<I>(c) { typedef typename I::real_t R; this->h1.dropoutPercentActive((R)c.dpa); this->h2.dropoutPercentActive((R)c.dpa); } }; };
template<class S> static Nd describe(GDo*, S& s) { auto& a = *s.a; return seq({ drop(fc(li(s, a.h1), Lrelu, 1 / 5.5)), drop(fc(li(s, a.h2), Elogu, 1, 2)), outl(fc(li(s, a.out), Sigm), Quad) }); }
// penalties computed in the forward pass, added to non-zero gradients only
struct GPen { static constexpr const char* name = "penalties of the forward pass"; static constexpr bool onehot = true; template<class I, class R = typename I::real_t> using N = Net3<LFC_PA_DO<std::tuple<loss_addendum::L1<R, true, true>, loss_addendum::DeCov<R, false, true, true>>, activation::sigm<R, weights_init::XavierFour>, GW_>, LFC_PA<std::tuple<loss_addendum::L2<R, true, true>>, activation::elu_ua<R>, GW_>, layer_output<activation::softmax_xentropy_loss<R, weights_init::XavierFour>, GW_>, I>; template<class I> struct T : N<I> { T(const Cfg& c) : N<I>(c) { typedef typename I::real_t R; this->h1.template addendum<0>().scale((R)c.addn); this->h1.template addendum<1>().scale((R)c.addn); this->h2.template addendum<0>().scale((R)c.addn); this->h1.dropoutPercentActive((R)c.dpa); } }; };
template<class S> static Nd describe(GPen*, S& s) { auto& a = *s.a; const double n = s.c.addn; return seq({ drop(with(fc(li(s, a.h1), Sigm), { { 0, n, true }, { 2, n, false } })), with(fc(li(s, a.h2), Elu), { { 1, n, true } }), outl(fc(li(s, a.out), Softmax), SmXEnt) }); }
// packs in packs: a tiled vertical pack, a vertical pack with dropout and an identity side by side
struct GNest { static constexpr const char* name = "nested packs"; static constexpr bool onehot = false;
	template<class I> struct T : Base<I> { typedef typename I::real_t R; typedef LFC<activation::softsigm<R>, GW_> L; typedef LFC_DO<activation::sigm<R, weights_init::XavierFour>, GW_> D; typedef LPV<L, L> V2; typedef LPT<V2> TV; typedef LPV<D, L> VD;
		layer_input<I> in; L u, t1, t2; D d; L e; V2 v2; TV tv; VD vd; LI<I> id; LPH<PHL<TV>, PHL<VD>, PHL<LI<I>>> ph; L w; layer_output<activation::sigm_quad_loss<R, weights_init::XavierFour>, GW_> out; layers<layer_input<I>, L, decltype(ph), L, decltype(out)> lp;
		T(const Cfg& c) : in(c.xw), u(6, (R)c.lr), t1(c.h1, (R)c.lr), t2(2, (R)c.lr), d(c.h2, (R)c.lr), e(3, (R)c.lr), v2(t1, t2), tv(v2, 2), vd(d, e), ph(make_PHL(tv, 0, 4), make_PHL(vd, 3, 3), make_PHL(id, 1, 2)), w(c.h2, (R)c.lr), out(c.yw, (R)c.lr), lp(in, u, ph, w, out) { d.dropoutPercentActive((R)c.dpa); } }; };
template<class S> static Nd describe(GNest*, S& s) { auto& a = *s.a; return seq({ fc(li(s, a.u), Softsigm), hor({ tile(seq({ fc(li(s, a.t1), Softsigm), fc(li(s, a.t2), Softsigm) }), 2), seq({ drop(fc(li(s, a.d), Sigm)), fc(li(s, a.e), Softsigm) }), Nd() }, { { 0, 4 }, { 3, 3 }, { 1, 2 } }), fc(li(s, a.w), Softsigm), outl(fc(li(s, a.out), Sigm), Quad) }); }
// gates that reach the gated pack through a horizontal pack, next to computed features; the gated pack feeds further layers
struct GGate { static constexpr const char* name = "gates through a pack"; static constexpr bool onehot = false;
	template<class I> struct T : Base<I> { typedef typename I::real_t R; typedef LFC<activation::softsigm<R>, GW_> L; typedef LFC_DO<activation::softsign<R>, GW_> D; typedef LIGf<500000, false, I> G;
		layer_input<I> in; LI<I> id; L f; LPH<PHL<LI<I>>, PHL<L>> ph; G g; L a; D b; LPHOt<false, std::tuple<PHL<G>, PHL<L>, PHL<D>>> po; L w; layer_output<activation::sigm_quad_loss<R, weights_init::XavierFour>, GW_> out; layers<layer_input<I>, decltype(ph), decltype(po), L, decltype(out)> lp;
		T(const Cfg& c) : in(c.xw), f(4, (R)c.lr), ph(make_PHL(id, 1, 2), make_PHL(f, 0, (neurons_count_t)c.xw)), a(c.h1, (R)c.lr), b(c.h2, (R)c.lr), po(std::make_tuple(make_PHL(g, 0, 2), make_PHL(a, 2, 3), make_PHL(b, 5, 1))), w(c.h2, (R)c.lr), out(c.yw, (R)c.lr), lp(in, ph, po, w, out) { b.dropoutPercentActive((R)c.dpa); } }; };
template<class S> static Nd describe(GGate*, S& s) { auto& a = *s.a; return seq({ hor({ Nd(), fc(li(s, a.f), Softsigm) }, { { 1, 2 }, { 0, s.c.xw } }), opt(0, 2, false, { fc(li(s, a.a), Softsigm), drop(fc(li(s, a.b), Softsign)) }, { { 2, 3 }, { 5, 1 } }), fc(li(s, a.w), Softsigm), outl(fc(li(s, a.out), Sigm), Quad) }); }
// gates computed by a trained layer: no gradient passes through the gates' columns
struct GGateU { static constexpr const char* name = "gates of a trained layer"; static constexpr bool onehot = false;
	template<class I> struct T : Base<I> { typedef typename I::real_t R; typedef LFC<activation::softsigm<R>, GW_> L; typedef LIGf<500000, true, I> G;
		layer_input<I> in; L u; G g; L a, b; LPHOt<false, std::tuple<PHL<G>, PHL<L>, PHL<L>>> po; L w; layer_output<activation::sigm_quad_loss<R, weights_init::XavierFour>, GW_> out; layers<layer_input<I>, L, decltype(po), L, decltype(out)> lp;
		T(const Cfg& c) : in(c.xw), u(6, (R)c.lr), a(c.h1, (R)c.lr), b(c.h2, (R)c.lr), po(std::make_tuple(make_PHL(g, 1, 2), make_PHL(a, 0, 1), make_PHL(b, 3, 3))), w(3, (R)c.lr), out(c.yw, (R)c.lr), lp(in, u, po, w, out) {} }; template<class I> using N = T<I>; };
template<class S> static Nd describe(GGateU*, S& s) { auto& a = *s.a; return seq({ fc(li(s, a.u), Softsigm), opt(1, 2, false, { fc(li(s, a.a), Softsigm), fc(li(s, a.b), Softsigm) }, { { 0, 1 }, { 3, 3 } }), fc(li(s, a.w), Softsigm), outl(fc(li(s, a.out), Sigm), Quad) }); }

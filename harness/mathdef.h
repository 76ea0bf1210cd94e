// The operations of the mathematics interface by their definition: plain loops over plain memory, used as one more execution variant
#pragma once
#define EL(name, ...) d[#name] = [](Ctx<M>& c) { ARGS R dm = 0; const size_t n = (size_t)A.numel_no_bias(); for (size_t i = 0; i < n; ++i) { R& a = A.data()[i]; R& b = x[1] && i < (size_t)x[1]->numel() ? x[1]->data()[i] : dm; R& e = x[2] && i < (size_t)x[2]->numel() ? x[2]->data()[i] : dm; (void)a; (void)b; (void)e; __VA_ARGS__; } };
#define DF(name, ...) d[#name] = [](Ctx<M>& c) { ARGS const size_t rows = (size_t)A.rows(), cols = (size_t)A.cols_no_bias(), n = rows * cols; (void)n; auto at = [](auto& m, size_t r, size_t cc) -> R& { return m.data()[r + cc * m.rows()]; }; (void)at; __VA_ARGS__ };
#define SUM(name, ...) d[#name] = [](Ctx<M>& c) { ARGS double s = 0; const size_t n = (size_t)A.numel_no_bias(); for (size_t i = 0; i < n; ++i) { const double a = A.data()[i], b = x[1] && i < (size_t)x[1]->numel() ? x[1]->data()[i] : 0; (void)b; __VA_ARGS__; } c.ret = s; };
template<class M> static void d_rownorm(Ctx<M>& c, double target, bool bias, bool set) { typedef typename Ctx<M>::R R; auto& A = *c.x[0]; const size_t rows = A.rows(), cols = A.cols(); for (size_t r = 0; r < rows; ++r) { double s = 0; for (size_t k = 0; k + (bias ? 0 : 1) < cols; ++k) { double v = A.data()[r + k * rows]; s += v * v; } if (set || s > target) { double f = sqrt(target / s); for (size_t k = 0; k < cols; ++k) A.data()[r + k * rows] = (R)(A.data()[r + k * rows] * f); } } }
template<class M> static void d_decov(Ctx<M>& c, bool grad) { // loss: sum of squared covariances above the diagonal over (columns - 1); derivative of the scaled loss
	typedef typename Ctx<M>::R R; auto& A = *c.x[0]; const size_t rows = A.rows(), cols = A.cols_no_bias(); std::vector<double>* dm; std::vector<double>* cv; { sim::Oracle g; dm = new std::vector<double>(rows * cols); cv = new std::vector<double>(cols * cols); auto& D = *dm; auto& C = *cv;
		for (size_t k = 0; k < cols; ++k) { double s = 0; for (size_t r = 0; r < rows; ++r) s += A.data()[r + k * rows]; s /= rows; for (size_t r = 0; r < rows; ++r) D[r + k * rows] = A.data()[r + k * rows] - s; }
		double l = 0; for (size_t i = 0; i < cols; ++i) for (size_t j = 0; j < cols; ++j) { double s = 0; for (size_t r = 0; r < rows; ++r) s += D[r + i * rows] * D[r + j * rows]; s /= rows; C[i + j * cols] = s; if (i < j) l += s * s; }
		if (!grad) c.ret = l / (cols - 1); else { auto& B = *c.x[1]; for (size_t r = 0; r < rows; ++r) for (size_t j = 0; j < cols; ++j) { double s = 0; for (size_t i = 0; i < cols; ++i) if (i != j) s += C[i + j * cols] * D[r + i * rows]; B.data()[r + j * rows] = (R)(2 * s * (double)c.k / ((double)rows * (cols - 1))); } }
		delete dm; delete cv; }
}
template<class M> static std::map<std::string, void(*)(Ctx<M>&)> definitions() {
	std::map<std::string, void(*)(Ctx<M>&)> d; using std::exp; using std::log; using std::abs;
	EL(ewBinarize_ip, a = a > k) EL(ewBinarize, a = b > k) EL(evClamp, a = a < -k ? -k : a > k2 ? k2 : a)
	DF(ewBinarizeBatch, for (size_t r = 0; r < (size_t)B.rows(); ++r) for (size_t q = 0; q < (size_t)B.cols(); ++q) at(A, r + i0, q) = at(B, r, q) > k;)
	EL(make_dropout, b = b < k ? R(1) / k : R(0); a *= b) EL(apply_dropout_mask, if (!(b < k)) a = 0) EL(make_alphaDropout, const bool keep = b < k; b = keep ? k2 : R(0); a = keep ? a * k2 + R(.3) : R(-.7))
	EL(apply_ILR, if (a * b > 0) { if (e < R(.8)) e *= R(1.2); } else if (a * b < 0) { if (e > R(.2)) e *= R(.9); } a *= e)
	EL(apply_momentum, a = k * a + b) EL(evMulCAddC_ip, a = a * k + k2) EL(evMulC_ip, a *= k) EL(evAddC_ip, a += k) EL(evMulC_ip_v, a *= k) EL(evMulC_ip_nb, a *= k) EL(evAddC_ip_nb, a += k) EL(evMulCAddC_ip_nb, a = a * k + k2)
	EL(evSubMtxMulC_ip_nb, a = (a - b) * k) EL(evMul_ip, a *= b) EL(evMul_ip_Anb, a *= b) EL(vAdd_ip, a += b) EL(evAdd_ip, a += b) EL(evAdd_Anb_ip, a += b) EL(evAddScaled_ip, a += k * b) EL(evNZAddScaled_ip, if (a != 0) a += k * b)
	EL(evAddScaledSign_ip, a += b > 0 ? k : b < 0 ? -k : R(0)) EL(evNZAddScaledSign_ip, if (a != 0) a += b > 0 ? k : b < 0 ? -k : R(0)) EL(evSign, a = (R)((b > 0) - (b < 0))) EL(evOneCompl, b = R(1) - a) EL(evSub_ip, a -= b) EL(evSub, e = a - b) EL(evMulC_ip_Sub_ip, a *= k; b -= a) EL(evSquare, a = b * b) EL(evAbs, a = abs(b))
	EL(sigm, a = R(1) / (R(1) + exp(-a))) EL(dsigm, a = a * (1 - a)) EL(relu, if (a < 0) a = 0) EL(drelu, a = a > 0) EL(leakyrelu, if (a < 0) a *= k) EL(dleakyrelu, a = a > 0 ? R(1) : k)
	EL(elu, if (a < 0) a = k * (exp(a) - 1)) EL(delu, a = a < 0 ? a + k : R(1)) EL(elu_unitalpha, if (a < 0) a = exp(a) - 1) EL(delu_unitalpha, a = a < 0 ? a + 1 : R(1))
	// logarithm of base q: log(1 + x) / log q for positive x, whose derivative is exp(-y log q) / log q
#define LQ(q) (R)((double)log1p((double)abs(a)) / log((double)(q)))
#define DLQ(q) (R)(exp(-(double)abs(a) * log((double)(q))) / log((double)(q)))
	EL(elogu, a = a < 0 ? k * (exp(a) - 1) : LQ(k2 + R(1.1))) EL(delogu, a = a < 0 ? a + k : DLQ(k2 + R(1.1))) EL(elogu_ua, a = a < 0 ? exp(a) - 1 : LQ(k2 + R(1.1))) EL(delogu_ua, a = a < 0 ? a + 1 : DLQ(k2 + R(1.1))) EL(elogu_nb, a = a < 0 ? k * (exp(a) - 1) : LQ(M_E)) EL(delogu_nb, a = a < 0 ? a + k : DLQ(M_E)) EL(elogu_ua_nb, a = a < 0 ? exp(a) - 1 : LQ(M_E)) EL(delogu_ua_nb, a = a < 0 ? a + 1 : DLQ(M_E))
	EL(loglogu, a = a < 0 ? -LQ(k + R(1.1)) : LQ(k2 + R(1.1))) EL(dloglogu, a = a < 0 ? DLQ(k + R(1.1)) : DLQ(k2 + R(1.1))) EL(loglogu_nbn, a = a < 0 ? -LQ(M_E) : LQ(k2 + R(1.1))) EL(dloglogu_nbn, a = a < 0 ? DLQ(M_E) : DLQ(k2 + R(1.1))) EL(loglogu_nbp, a = a < 0 ? -LQ(k2 + R(1.1)) : LQ(M_E)) EL(dloglogu_nbp, a = a < 0 ? DLQ(k2 + R(1.1)) : DLQ(M_E)) EL(loglogu_nbn_nbp, a = a < 0 ? -LQ(M_E) : LQ(M_E)) EL(dloglogu_nbn_nbp, a = DLQ(M_E))
	EL(logu, a = a <= 0 ? R(0) : LQ(k2 + R(1.1))) EL(dlogu, a = a <= 0 ? R(0) : DLQ(k2 + R(1.1))) EL(logu_nb, a = a <= 0 ? R(0) : LQ(M_E)) EL(dlogu_nb, a = a <= 0 ? R(0) : DLQ(M_E))
	EL(softsign, a = k2 * a / (k + abs(a))) EL(softsign_uc, a = a / (k + abs(a))) EL(dsoftsign, { const R s = R(1.5) - abs(a); a = s * s / (k * R(1.5)); }) EL(dsoftsign_ua_uc, { const R s = R(1) - abs(a); a = s * s; }) EL(softsigm, a = R(.5) + R(.5) * a / (k + abs(a))) EL(dsoftsigm, { const R s = R(1) - abs(2 * a - 1); a = s * s / (2 * k); })
	EL(selu, a = a < 0 ? R(1.7) * (exp(a) - 1) : R(1.05) * a) EL(dselu, a = a < 0 ? a + R(1.7) : R(1.05)) EL(step, a = a < 0 ? R(0) : R(1))
	// losses: A are the targets, B the activations that become the derivative
	EL(dIdentityXEntropyLoss_dZ, b = (b - a) / (b * (1 - b))) EL(dSigmQuadLoss_dZ, b = (b - a) * b * (1 - b)) EL(dSoftSigmQuadLoss_dZ, { const R s = R(1) - abs(2 * b - 1); b = (b - a) * s * s / (2 * k); }) EL(dSoftSigmXEntropyLoss_dZ, { const R s = R(1) - abs(2 * b - 1); b = (b - a) / (b * (1 - b)) * s * s / (2 * k); }) EL(dLoss_dZ, b = (b - a) * (a < 0 && b > a ? R(1.414214) * R(1.414214) : R(1)))
	SUM(vSumAbs, s += std::fabs(a)) SUM(ewSumProd, s += a * b) SUM(ewSumSquares, s += a * a) SUM(ewSumSquares_ns, s += a * a) SUM(loss_quadratic, s += .5 * (a - b) * (a - b)) SUM(loss_xentropy, s -= b > 0 ? log(a) : log(1 - a)) SUM(loss_softmax_xentropy, s -= b > 0 ? log(a) : 0) SUM(compute_loss, s += .5 * (a - b) * (a - b) * (b < 0 && a > b ? 1.414214 * 1.414214 : 1)) SUM(vCountSame, s += a == b)
	DF(ewSumSquaresTriang_lower, double s = 0; for (size_t r = 0; r < rows; ++r) for (size_t q = 0; q < r; ++q) s += (double)at(A, r, q) * at(A, r, q); c.ret = s;) DF(ewSumSquaresTriang_upper, double s = 0; for (size_t r = 0; r < rows; ++r) for (size_t q = r + 1; q < cols; ++q) s += (double)at(A, r, q) * at(A, r, q); c.ret = s;)
	DF(vCountSame_ofs, double s = 0; for (size_t r = 0; r < (size_t)B.numel(); ++r) s += A.data()[r + i0] == B.data()[r]; c.ret = s;) DF(vCountSameBatch, double s = 0; for (size_t r = 0; r < (size_t)B.rows(); ++r) for (size_t q = 0; q < (size_t)B.cols(); ++q) s += at(A, r + i0, q) == at(B, r, q); c.ret = s;)
#define ROWS(...) for (size_t r = 0; r < rows; ++r) { __VA_ARGS__ }
	DF(softmax, ROWS(double mx = at(A, r, 0); double s = 0; for (size_t q = 1; q < cols; ++q) mx = std::max(mx, (double)at(A, r, q)); for (size_t q = 0; q < cols; ++q) s += exp(at(A, r, q) - mx); for (size_t q = 0; q < cols; ++q) at(A, r, q) = (R)(exp(at(A, r, q) - mx) / s);)) d["softmax_wide"] = d["softmax"];
	DF(softmax_parts, ROWS(double s = 0; for (size_t q = 0; q < cols; ++q) { at(C, r, q) = exp(at(A, r, q) - at(B, r, 0)); s += at(C, r, q); } D.data()[r] = (R)s;))
	DF(mrwDivideByVec, ROWS(for (size_t q = 0; q < cols; ++q) at(A, r, q) /= B.data()[r];)) DF(mrwMulByVec, ROWS(for (size_t q = 0; q < cols; ++q) at(A, r, q) *= B.data()[r];))
	DF(mrwIdxsOfMax, ROWS(idx[r] = 0; for (size_t q = 1; q < cols; ++q) if (at(A, r, q) > at(A, r, idx[r])) idx[r] = (vec_len_t)q;)) d["mrwIdxsOfMax_wide"] = d["mrwIdxsOfMax"]; DF(mrwMax, ROWS(B.data()[r] = at(A, r, 0); for (size_t q = 1; q < cols; ++q) B.data()[r] = std::max(B.data()[r], at(A, r, q));))
	DF(mrwSum, ROWS(double s = 0; for (size_t q = 0; q < cols; ++q) s += at(A, r, q); B.data()[r] = (R)s;)) d["mrwSum_narrow"] = d["mrwSum"];
	DF(mrwOr, ROWS(R s = 0; for (size_t q = 0; q < cols; ++q) if (at(A, r, q) != 0) s = 1; B.data()[r] = s;))
	DF(mrwL2NormSquared, ROWS(double s = 0; for (size_t q = 0; q < cols; ++q) s += (double)at(A, r, q) * at(A, r, q); B.data()[r] = (R)s;)) d["mrwL2NormSquared_narrow"] = d["mrwL2NormSquared"];
	d["mCheck_normalize_rows"] = [](Ctx<M>& c) { d_rownorm(c, c.k * 4, true, false); }; d["mCheck_normalize_rows_nb"] = [](Ctx<M>& c) { d_rownorm(c, c.k * 4, false, false); }; d["mrwSetL2Norm"] = [](Ctx<M>& c) { d_rownorm(c, c.k, true, true); }; d["mrwSetL2Norm_nb"] = [](Ctx<M>& c) { d_rownorm(c, c.k, false, true); };
#define COLS(...) for (size_t q = 0; q < cols; ++q) { __VA_ARGS__ }
	DF(mcwMean, COLS(double s = 0; for (size_t r = 0; r < rows; ++r) s += at(A, r, q); B.data()[q] = (R)(s / rows);)) DF(mcwSum, COLS(double s = 0; for (size_t r = 0; r < rows; ++r) s += at(A, r, q); B.data()[q] = (R)s;)) DF(mcwDeMean, COLS(double s = 0; for (size_t r = 0; r < rows; ++r) s += at(A, r, q); for (size_t r = 0; r < rows; ++r) at(A, r, q) -= (R)(s / rows);)) DF(mcwDeMeanNZ, COLS(double s = 0; size_t nz = 0; for (size_t r = 0; r < rows; ++r) if (at(A, r, q) != 0) { s += at(A, r, q); nz++; } for (size_t r = 0; r < rows; ++r) if (at(A, r, q) != 0) at(A, r, q) -= (R)(s / nz);))
	DF(mcwSub_ip, COLS(for (size_t r = 0; r < rows; ++r) at(A, r, q) -= B.data()[q];)) DF(mcwMulDiag_ip, COLS(for (size_t r = 0; r < rows; ++r) at(A, r, q) *= at(B, q, q);))
	DF(mCloneCols, size_t o = 0; COLS(for (size_t j = 0; j < (size_t)idx[q]; ++j, ++o) for (size_t r = 0; r < rows; ++r) at(B, r, o) = at(A, r, q);)) DF(mCloneCol, for (size_t q = 0; q < (size_t)B.cols(); ++q) for (size_t r = 0; r < rows; ++r) at(B, r, q) = A.data()[r];)
	// tiling: row r of tile t is row t * rows + r of the rolled matrix
	DF(mTilingRoll, const size_t w = B.cols_no_bias(); COLS(for (size_t r = 0; r < rows; ++r) at(B, q / w * rows + r, q % w) = at(A, r, q);)) d["mTilingRoll_bias"] = d["mTilingRoll"];
	DF(mTilingUnroll, const size_t h = B.rows(); for (size_t q = 0; q < (size_t)B.cols_no_bias(); ++q) for (size_t r = 0; r < h; ++r) at(B, r, q) = at(A, q / cols * h + r, q % cols);) d["mTilingUnroll_bias"] = d["mTilingUnroll"];
	DF(mExtractRows, COLS(for (size_t r = 0; r < (size_t)B.rows(); ++r) at(B, r, q) = at(A, idx[r], q);)) d["mExtractRows_bias"] = d["mExtractRows"]; DF(mExtractCols, for (size_t q = 0; q < (size_t)B.cols(); ++q) for (size_t r = 0; r < rows; ++r) at(B, r, q) = at(A, r, idx[q]);) DF(mExtractRowsSeq, COLS(for (size_t r = 0; r < (size_t)B.rows(); ++r) at(B, r, q) = at(A, r + i0, q);)) d["mExtractRowsSeq_bias"] = d["mExtractRowsSeq"];
	DF(mExtractRowsByMask, fill_mask(c, C); size_t o = 0; ROWS(if (C.data()[r] != 0) { for (size_t q = 0; q < cols; ++q) at(B, o, q) = at(A, r, q); ++o; })) DF(mFillRowsByMask, fill_mask(c, C); size_t o = 0; for (size_t r = 0; r < (size_t)B.rows(); ++r) if (C.data()[r] != 0) { for (size_t q = 0; q < cols; ++q) at(B, r, q) = at(A, o, q); ++o; } else for (size_t q = 0; q < cols; ++q) at(B, r, q) = 0;)
	DF(mTranspose, COLS(for (size_t r = 0; r < rows; ++r) at(B, q, r) = at(A, r, q);))
	d["loss_deCov"] = [](Ctx<M>& c) { d_decov(c, false); }; d["dLoss_deCov"] = [](Ctx<M>& c) { d_decov(c, true); };
	EL(RMSProp_Hinton, b = k2 * b + (1 - k2) * a * a; a = k * a / (std::sqrt(b) + R(1e-4))) EL(ModProp, b = k2 * b + (1 - k2) * abs(a); a = k * a / (b + R(1e-4))) EL(RProp, a = k * (R)((a > 0) - (a < 0)))
	EL(RMSProp_Graves, e *= R(.1); b = k2 * b + (1 - k2) * a * a; e = k2 * e + (1 - k2) * a; a = k * a / std::sqrt(b - e * e + R(1e-2)))
	d["Adam"] = [](Ctx<M>& c) { ARGS R b1 = R(.9) * k * R(.9), b2 = R(.99) * k2 * R(.99); const R s = k * std::sqrt(1 - b2) / (1 - b1); for (numel_cnt_t i = 0; i < A.numel(); ++i) { R& g = A.data()[i]; R& p = B.data()[i]; R& v = C.data()[i]; p = R(.9) * p + R(.1) * g; v = R(.99) * v + R(.01) * g * g; g = s * p / (std::sqrt(v) + R(1e-5)); } c.out[0] = b1; c.out[1] = b2; };
	d["AdaMax"] = [](Ctx<M>& c) { ARGS R b1 = R(.9) * k * R(.9); const R s = k / (1 - b1); for (numel_cnt_t i = 0; i < A.numel(); ++i) { R& g = A.data()[i]; R& p = B.data()[i]; R& v = C.data()[i]; p = R(.9) * p + R(.1) * g; v = std::max(R(.99) * v, abs(g)); g = s * p / (v + R(1e-5)); } c.out[0] = b1; c.out[1] = R(.99) * k2; };
	d["RNadam"] = [](Ctx<M>& c) { ARGS R b1 = R(.9) * k * R(.9), b2 = R(.99) * k2 * R(.99); const R mt = (R(.9) - b1) / (1 - b1), nt = (R(.99) - b2) / (1 - b2); for (numel_cnt_t i = 0; i < A.numel(); ++i) { R& g = A.data()[i]; R& p = B.data()[i]; R& v = C.data()[i]; p = mt * p + (1 - mt) * g; v = nt * v + (1 - nt) * g * g; g = k * (R(.9) * p + R(.1) * g) / (std::sqrt(v) + R(1e-5)); } c.out[0] = b1; c.out[1] = b2; };
	DF(mrwSum_ip, ROWS(double s = 0; for (size_t q = 0; q < cols; ++q) s += at(A, r, q); at(A, r, 0) = (R)s;))
	// sample s, feature f of a matrix of either layout
#define SF auto sf = [](auto& m, size_t s, size_t f) -> R& { return m.bBatchInRow() ? m.data()[f + s * m.rows()] : m.data()[s + f * m.rows()]; }; const size_t ns = (size_t)A.batch_size(), nf = (size_t)A.sample_size(); (void)ns; (void)nf;
#define EACH(...) for (size_t s = 0; s < ns; ++s) for (size_t f = 0; f < nf; ++f) { __VA_ARGS__; }
	DF(bir_evMulC_ip, SF EACH(sf(A, s, f) *= k)) DF(bir_evAddC_ip, SF EACH(sf(A, s, f) += k)) DF(bir_evMulCAddC_ip, SF EACH(sf(A, s, f) = sf(A, s, f) * k + k2))
	DF(mExtractBatches, SF for (size_t s = 0; s < (size_t)B.batch_size(); ++s) for (size_t f = 0; f < nf; ++f) sf(B, s, f) = sf(A, idx[s], f);) DF(mTranspose_nb, SF EACH(sf(B, s, f) = sf(A, s, f))) d["mTranspose_full"] = d["mTranspose_nb"];
	DF(mTranspose_ip, const size_t ar = A.rows(), ac = A.cols(); std::vector<R>* t; { sim::Oracle g; t = new std::vector<R>(A.data(), A.data() + ar * ac); } for (size_t r = 0; r < ar; ++r) for (size_t q = 0; q < ac; ++q) A.data()[q + r * ac] = (*t)[r + q * ar]; { sim::Oracle g; delete t; } c.ret = ac * 4096. + ar * 4 + !A.bBatchInRow() * 2 + A.emulatesBiases();)
	DF(mMul_prevAct_weights_2_act, SF for (size_t s = 0; s < ns; ++s) for (size_t o = 0; o < (size_t)i0; ++o) { double t = at(B, o, nf); for (size_t f = 0; f < nf; ++f) t += (double)sf(A, s, f) * at(B, o, f); sf(C, s, o) = (R)t; })
	DF(mMul_dLdZ_weights_2_dLdAPrev, SF for (size_t s = 0; s < ns; ++s) for (size_t o = 0; o < (size_t)C.sample_size(); ++o) { double t = 0; for (size_t f = 0; f < nf; ++f) t += (double)sf(A, s, f) * at(B, f, o); sf(C, s, o) = (R)t; })
	DF(mMulScaled_dLdZ_prevAct_2_dLdW, SF for (size_t f = 0; f < nf; ++f) for (size_t o = 0; o < (size_t)C.cols(); ++o) { double t = 0; for (size_t s = 0; s < ns; ++s) t += (double)sf(A, s, f) * (o == (size_t)B.sample_size() ? 1. : (double)sf(B, s, o)); at(C, f, o) = (R)(t * k); })
	DF(mMulAB_C, ROWS(for (size_t q = 0; q < (size_t)C.cols(); ++q) { double t = 0; for (size_t j = 0; j < cols; ++j) t += (double)at(A, r, j) * at(B, j, q); at(C, r, q) = (R)t; })) DF(mMulABt_Cnb, ROWS(for (size_t q = 0; q < (size_t)C.cols_no_bias(); ++q) { double t = 0; for (size_t j = 0; j < cols; ++j) t += (double)at(A, r, j) * at(B, q, j); at(C, r, q) = (R)t; }))
	DF(mScaledMulAtB_C, for (size_t i = 0; i < cols; ++i) for (size_t q = 0; q < (size_t)B.cols(); ++q) { double t = 0; for (size_t r = 0; r < rows; ++r) t += (double)at(A, r, i) * at(B, r, q); at(C, i, q) = (R)(t * k); })
	DF(mColumnsCov_lower, for (size_t i = 0; i < cols; ++i) for (size_t q = 0; q <= i; ++q) { double t = 0; for (size_t r = 0; r < rows; ++r) t += (double)at(A, r, i) * at(A, r, q); at(B, i, q) = (R)(t / rows); }) DF(mColumnsCov_upper, for (size_t i = 0; i < cols; ++i) for (size_t q = i; q < cols; ++q) { double t = 0; for (size_t r = 0; r < rows; ++r) t += (double)at(A, r, i) * at(A, r, q); at(B, i, q) = (R)(t / rows); })
	return d;
}

"""(name, 'bad'|'ok', [properties], [(file, old, new)])"""
V = []


def v(name, kind, props, *edits):
    V.append((name, kind, props.split(), list(edits)))


# ---------------------------------------------------------------- u72
v("u72 add carry >=", "bad", "P26", ("u72.hpp", "this->lo > UINT64_MAX - rhs.lo", "this->lo >= UINT64_MAX - rhs.lo"))
v("u72 gt ignores hi", "bad", "P26", ("u72.hpp", "(!flg2 & !flg1)", "(flg2 & !flg1)"))
v("u72 sub no mask", "bad", "P26", ("u72.hpp", "(this->hi - (rhs.hi + 1ul * flg)) & 0xfful", "(this->hi - (rhs.hi + 1ul * flg))"))
v("u72 be byte", "bad", "P26", ("u72.hpp", "this->lo >> (7 - i) * 8", "this->lo >> (6 - i) * 8"))
v("u72 le from", "bad", "P26", ("u72.hpp", "static_cast<uint64_t>(bytes[i]) << (i * 8)", "static_cast<uint64_t>(bytes[i]) << (i * 7)"))
v("u72 carry by wrap", "ok", "P26", ("u72.hpp", "const bool flg = this->lo > UINT64_MAX - rhs.lo;", "const bool flg = lo < rhs.lo;"))
v("u72 gt by cases", "ok", "P26", ("u72.hpp", "const bool flg = flg0 | (flg1 & flg3) | (!flg2 & !flg1);", "const bool flg = this->hi != rhs.hi ? flg0 : flg3; (void)flg1; (void)flg2;"))
v("u72 gt if", "ok", "P26", ("u72.hpp", "    const bool flg0 = this->hi > rhs.hi;\n", "    if (this->hi > rhs.hi) return true;\n    if (this->hi < rhs.hi) return false;\n    return this->lo > rhs.lo;\n    const bool flg0 = this->hi > rhs.hi;\n"))
v("u72 loop down", "ok", "P26", ("u72.hpp", "for (size_t i = 0; i < 8; i++) {\n      lo |= static_cast<uint64_t>(bytes[i]) << (i * 8);", "for (int i = 7; i >= 0; i--) {\n      lo = (lo << 8) | bytes[i];"))
v("u72 int128", "ok", "P26", ("u72.hpp", "const uint64_t lo = this->lo - rhs.lo;\n    const bool flg = this->lo < rhs.lo;\n    const uint64_t hi = (this->hi - (rhs.hi + 1ul * flg)) & 0xfful;",
  "uint64_t hi = this->hi - rhs.hi;\n    const uint64_t lo = this->lo - rhs.lo;\n    if (this->lo < rhs.lo) hi -= 1;\n    hi &= 0xff;"))

# ---------------------------------------------------------------- field
v("ff multo R", "bad", "P27", ("ff.hpp", "const uint64_t t3 = static_cast<uint64_t>(t2) * static_cast<uint64_t>(R);\n    const uint32_t t4 = static_cast<uint32_t>(t3 >> 28);\n    const uint32_t t5 = t4 * static_cast<uint32_t>(Q);\n    const uint16_t t6 = static_cast<uint16_t>(t2 - t5);\n\n    const bool flg = t6 >= Q;\n    const uint16_t t7 = t6 - flg * Q;\n\n    this->v",
  "const uint64_t t3 = static_cast<uint64_t>(t2) * static_cast<uint64_t>(R);\n    const uint32_t t4 = static_cast<uint32_t>(t3 >> 29);\n    const uint32_t t5 = t4 * static_cast<uint32_t>(Q);\n    const uint16_t t6 = static_cast<uint16_t>(t2 - t5);\n\n    const bool flg = t6 >= Q;\n    const uint16_t t7 = t6 - flg * Q;\n\n    this->v"))
v("ff le is lt", "bad", "P27", ("ff.hpp", "return this->v <= rhs.v;", "return this->v < rhs.v;"))
v("ff inv old_t", "bad", "P27", ("ff.hpp", "    old_s, // a\n    old_t, // b", "    old_t, // a\n    old_s, // b"))
v("ff inv zero", "bad", "P27", ("ff.hpp", "const uint16_t t3 = t2 - flg0 * 1;", "const uint16_t t3 = t2;"))
v("ff inv sign", "bad", "P27", ("ff.hpp", "flg1 * Q + res[0]", "res[0]"))
v("wide mul carry", "bad", "P27", ("samplerz.hpp", "const uint64_t t1 = t0 + mid0_lo + mid1_lo;", "const uint64_t t1 = t0 + mid0_lo;"))
v("wide mul lo", "bad", "P27", ("samplerz.hpp", "lo + (mid0_lo << 32) + (mid1_lo << 32)", "lo + (mid0_lo << 32) + (mid0_lo << 32)"))
v("wide mul int128", "ok", "P27", ("samplerz.hpp", "#if defined __aarch64__ && __SIZEOF_INT128__ == 16", "#if __SIZEOF_INT128__ == 16"))
v("wide mul other", "ok", "P27", ("samplerz.hpp", "const uint64_t t1 = t0 + mid0_lo + mid1_lo;\n  const uint64_t carry = t1 >> 32;", "const uint64_t t1 = t0 + (mid0 & 0xfffffffful) + (mid1 % (1ul << 32));\n  const uint64_t carry = t1 / (1ul << 32);"))
v("ff add mod", "ok", "P27", ("ff.hpp", "const bool flg = t0 >= Q;\n    const uint16_t t1 = t0 - flg * Q;\n\n    return", "const uint16_t t1 = t0 % Q;\n\n    return"))
v("ff add if", "ok", "P27", ("ff.hpp", "const bool flg = t0 >= Q;\n    const uint16_t t1 = t0 - flg * Q;\n\n    return", "uint16_t t1 = t0;\n    if (t1 >= Q) t1 -= Q;\n\n    return"))
v("ff mul %", "ok", "P27", ("ff.hpp", "    const uint64_t t3 = static_cast<uint64_t>(t2) * static_cast<uint64_t>(R);\n    const uint32_t t4 = static_cast<uint32_t>(t3 >> 28);\n    const uint32_t t5 = t4 * static_cast<uint32_t>(Q);\n    const uint16_t t6 = static_cast<uint16_t>(t2 - t5);", "    const uint16_t t6 = static_cast<uint16_t>(t2 % Q);"))
v("ff sub direct", "ok", "P27", ("ff.hpp", "const ff_t t0 = -rhs;\n    return *this + t0;", "const int32_t d = static_cast<int32_t>(this->v) - static_cast<int32_t>(rhs.v);\n    return ff_t{ static_cast<uint16_t>(d < 0 ? d + Q : d) };"))
v("ff inv fermat", "ok", "P27", ("ff.hpp", "    const bool flg0 = this->v == 0;\n    const uint16_t t0", "    if (this->v == 0) return ff_t{ 0 };\n    return *this ^ static_cast<size_t>(Q - 2);\n    const bool flg0 = this->v == 0;\n    const uint16_t t0"))
v("ff inv early", "ok", "P27", ("ff.hpp", "    const bool flg0 = this->v == 0;\n    const uint16_t t0", "    if (this->v == 0) { return ff_t{ 0 }; }\n    const bool flg0 = false;\n    const uint16_t t0"))
v("xgcd swap", "ok", "P27", ("ff.hpp", "    tmp = old_s;\n    old_s = s;\n    s = tmp - quotient * s;", "    const int16_t ns = old_s - quotient * s;\n    old_s = s;\n    s = ns;"))

# ---------------------------------------------------------------- key codecs
v("pkey mask", "bad", "P01", ("encoding.hpp", "constexpr uint16_t mask4 = 0x0f;", "constexpr uint16_t mask4 = 0x07;"))
v("pkey shift", "bad", "P01", ("decoding.hpp", "<< 12) |\n                    (static_cast<uint16_t>(pkey[pkoff + 4]) << 4)", "<< 11) |\n                    (static_cast<uint16_t>(pkey[pkoff + 4]) << 4)"))
v("pkey range off by one", "bad", "P01 P03", ("decoding.hpp", "failed |= h[i].v >= ff::Q;", "failed |= h[i].v > ff::Q;"))
v("pkey range first half", "bad", "P01 P03", ("decoding.hpp", "for (size_t i = 0; i < N; i++) {\n    failed |=", "for (size_t i = 0; i < N - 1; i++) {\n    failed |="))
v("pkey header ignored", "bad", "P03", ("decoding.hpp", "if (pkey[0] != header) [[unlikely]]", "if ((pkey[0] & 0x0f) != header) [[unlikely]]"))
v("pkey fail no zero", "bad", "P03", ("decoding.hpp", "if (failed) [[unlikely]] {\n    std::fill_n(h, N, 0);", "if (failed) [[unlikely]] {\n    std::fill_n(h, N - 1, 0);"))
v("pkey decode generic loop", "ok", "P01 P03", ("decoding.hpp", "  for (size_t pkoff = 1, hoff = 0; pkoff < pklen; pkoff += 7, hoff += 4) {\n    h[hoff + 0].v", "  (void)mask6; (void)mask4; (void)mask2;\n  {\n    uint32_t acc = 0, nb = 0; size_t j = 0;\n    for (size_t i = 1; i < pklen; i++) {\n      acc |= static_cast<uint32_t>(pkey[i]) << nb; nb += 8;\n      if (nb >= 14) { h[j].v = acc & 0x3fff; j++; acc >>= 14; nb -= 14; }\n    }\n  }\n  for (size_t pkoff = 1, hoff = 0; pkoff < 1; pkoff += 7, hoff += 4) {\n    h[hoff + 0].v"))
v("pkey early out", "ok", "P01 P03", ("decoding.hpp", "    failed |= h[i].v >= ff::Q;\n", "    if (h[i].v >= ff::Q) { failed = true; break; }\n"))
v("pkey helper", "ok", "P01 P03", ("decoding.hpp", "    failed |= h[i].v >= ff::Q;\n", "    const auto big = [](const ff::ff_t& e) { return e.v > ff::Q - 1; };\n    failed = failed || big(h[i]);\n"))
v("skey f shift", "bad", "P02", ("encoding.hpp", "skey[skoff + 1] = (f2 << 4) | (f1 >> 2);", "skey[skoff + 1] = (f2 << 4) | (f1 >> 3);"))
v("skey 1024 g", "bad", "P02", ("encoding.hpp", "skey[skoff + 3] = (g6 << 6) | (g5 << 1) | (g4 >> 4);", "skey[skoff + 3] = (g6 << 6) | (g5 << 1) | (g4 >> 3);"))
v("skey F sign", "bad", "P02", ("decoding.hpp", "constexpr int32_t fg_max = (fg_wrap_at / 2) - 1;", "constexpr int32_t fg_max = (fg_wrap_at / 2) - 2;"))
v("skey enc mask", "ok", "P02", ("encoding.hpp", "const uint8_t f0 = static_cast<uint8_t>(flg0 * wrap_at + f[foff + 0]);", "const uint8_t f0 = static_cast<uint8_t>(f[foff + 0] & (wrap_at - 1)); (void)flg0;"))
v("skey dec ternary", "ok", "P02 P03", ("decoding.hpp", "f[foff + 0] = f0 - (f0 > fg_max) * fg_wrap_at;", "f[foff + 0] = f0 > fg_max ? f0 - fg_wrap_at : f0;"))
v("skey dec shift", "ok", "P02 P03", ("decoding.hpp", "g[goff + 0] = g0 - (g0 > fg_max) * fg_wrap_at;", "g[goff + 0] = static_cast<int32_t>(static_cast<uint32_t>(g0) << 26) >> 26;"))
v("skey header or", "bad", "P03", ("decoding.hpp", "if (skey[0] != header) [[unlikely]]", "if ((skey[0] | 0x40) != header) [[unlikely]]"))

# ---------------------------------------------------------------- transforms
v("ntt zeta512", "bad", "P08", ("ntt.hpp", "constexpr ff::ff_t FALCON512_ζ{ 49 };", "constexpr ff::ff_t FALCON512_ζ{ 7 };"))
v("ntt inverse n", "bad", "P08", ("ntt.hpp", "constexpr auto INV_FALCON1024_N = ff::ff_t{ FALCON1024_N }.inv();", "constexpr auto INV_FALCON1024_N = ff::ff_t{ FALCON512_N }.inv();"))
v("intt index", "bad", "P08", ("ntt.hpp", "const size_t k_beg = (N >> l) - 1;", "const size_t k_beg = (N >> l) - (l == 8 ? 2 : 1);"))
v("ntt skips one", "bad", "P08", ("ntt.hpp", "for (size_t i = start; i < start + len; i++) {\n        const auto tmp = ζ_exp * poly[i + len];", "for (size_t i = start; i < start + len - (l == 8 && start != 0); i++) {\n        const auto tmp = ζ_exp * poly[i + len];"))
v("intt sign at level", "bad", "P08", ("ntt.hpp", "        poly[i + len] = tmp - poly[i + len];", "        poly[i + len] = (l == 5 && start >= N / 2) ? poly[i + len] - tmp : tmp - poly[i + len];"))
v("ntt plus neg", "ok", "P08", ("ntt.hpp", "        poly[i + len] = poly[i] - tmp;\n        poly[i] += tmp;", "        const auto a = poly[i];\n        poly[i] = a + tmp;\n        poly[i + len] = a + (-tmp);"))
v("ntt raw", "ok", "P08", ("ntt.hpp", "        poly[i + len] = poly[i] - tmp;\n        poly[i] += tmp;", "        const uint32_t a = poly[i].v;\n        poly[i].v = static_cast<uint16_t>((a + tmp.v) % ff::Q);\n        poly[i + len].v = static_cast<uint16_t>((a + ff::Q - tmp.v) % ff::Q);"))
v("intt scale early", "ok", "P08", ("ntt.hpp", "        poly[i + len] *= neg_ζ_exp;", "        poly[i + len] = neg_ζ_exp * poly[i + len];"))
v("ntt while", "ok", "P08", ("ntt.hpp", "  for (int64_t l = LOG2N - 1; l >= 0; l--) {\n    const size_t len = 1ul << l;", "  for (size_t len = N / 2, l = LOG2N - 1; len > 0; len /= 2, l--) {"))
v("fft table digit", "bad", "P09", ("fft.hpp", "{ 0.9238795325112867, 0.3826834323650898 },", "{ 0.9238795325112867, 0.3826834323605898 },"))
v("fft table swap", "bad", "P09", ("fft.hpp", "{ 0.012271538285719944, 0.9999247018391445 },", "{ 0.9999247018391445, 0.012271538285719944 },"))
v("split conj", "bad", "P09", ("fft.hpp", "f1[i] = 0.5 * (f[2 * i] - f[2 * i + 1]) * std::conj(ζ_exp);", "f1[i] = 0.5 * (f[2 * i] - f[2 * i + 1]) * ζ_exp;"))
v("split index", "bad", "P09", ("fft.hpp", "const auto ζ_exp = POWERS_OF_ζ[hN + i];\n\n    f0[i]", "const auto ζ_exp = POWERS_OF_ζ[hN + (i ^ (LOG2N == 3))];\n\n    f0[i]"))
v("merge sign", "bad", "P09", ("fft.hpp", "f[2 * i + 1] = f0[i] - f1[i] * ζ_exp;", "f[2 * i + 1] = f0[i] - (LOG2N == 1 ? std::conj(f1[i]) : f1[i]) * ζ_exp;"))
v("ifft scale", "bad", "P09", ("fft.hpp", "constexpr double INV_N = 1. / static_cast<double>(N);", "constexpr double INV_N = 1.f / static_cast<float>(N + (N == 1024) * 1e-3);"))
v("ifft conj last", "bad", "P09", ("fft.hpp", "vec[i] = vec[i] * INV_N;", "vec[i] = (i == N - 1 ? std::conj(vec[i]) : vec[i]) * INV_N;"))
v("adj partial", "bad", "P09", ("fft.hpp", "for (size_t i = 0; i < N; i++) {\n    poly[i] = std::conj(poly[i]);", "for (size_t i = 0; i < N - (N == 2); i++) {\n    poly[i] = std::conj(poly[i]);"))
v("poly mul conj", "bad", "P09", ("polynomial.hpp", "polyc[i] = polya[i] * polyb[i];", "polyc[i] = polya[i] * (lg2n == 4 ? std::conj(polyb[i]) : polyb[i]);"))
v("poly div mod", "bad", "P09", ("polynomial.hpp", "polyc[i] = polya[i] / polyb[i];", "polyc[i] = polyb[i] / polya[i];"))
v("fft computed", "ok", "P09", ("fft.hpp", "const auto ζ_exp = POWERS_OF_ζ[k_now];\n\n      for", "const auto ζ_exp = computeζ<N>(bit_rev<LOG2N>(k_now));\n\n      for"))
v("fft minus first", "ok", "P09", ("fft.hpp", "        vec[i + len] = vec[i] - tmp;\n        vec[i] = vec[i] + tmp;", "        const auto a = vec[i];\n        vec[i] = tmp + a;\n        vec[i + len] = a - tmp;"))
v("split halves", "ok", "P09", ("fft.hpp", "f0[i] = 0.5 * (f[2 * i] + f[2 * i + 1]);", "f0[i] = (f[2 * i] + f[2 * i + 1]) / 2.0;"))
v("fft by hand", "ok", "P09", ("fft.hpp", "        const auto tmp = ζ_exp * vec[i + len];\n\n        vec[i + len] = vec[i] - tmp;", "        const cmplx x = vec[i + len];\n        const cmplx tmp{ ζ_exp.real() * x.real() - ζ_exp.imag() * x.imag(), ζ_exp.real() * x.imag() + ζ_exp.imag() * x.real() };\n\n        vec[i + len] = vec[i] - tmp;"))
v("ifft divide", "ok", "P09", ("fft.hpp", "vec[i] = vec[i] * INV_N;", "vec[i] /= static_cast<double>(N);"))
v("poly mul by hand", "ok", "P09", ("polynomial.hpp", "polyc[i] = polya[i] / polyb[i];\n  }\n}\n\n}", "const auto d = polyb[i];\n    const double n = std::norm(d);\n    polyc[i] = (polya[i] * std::conj(d)) / n;\n  }\n}\n\n}"))
v("poly neg zero minus", "ok", "P09", ("polynomial.hpp", "poly[i] = -poly[i];", "poly[i] = ff::ff_t::zero() - poly[i];"))

# ---------------------------------------------------------------- verification
VH = "verification.hpp"
v("vf bound lt", "bad", "P07", (VH, "return sqrd_norm <= β2;", "return sqrd_norm < β2;"))
v("vf wrong bound", "bad", "P07", ("falcon.hpp", "  constexpr int32_t β2 = β2_values[N == 1024];\n\n  return", "  constexpr int32_t β2 = β2_values[N == 1024] + (N == 512);\n\n  return"))
v("vf 32-bit norm", "bad", "P07", (VH, "int64_t sqrd_norm = 0;", "int32_t sqrd_norm = 0;"))
v("vf unsigned 32-bit norm", "bad", "P07", (VH, "int64_t sqrd_norm = 0;", "uint32_t sqrd_norm = 0;"), (VH, "static_cast<int64_t>(s2[i]) * s2[i]", "static_cast<uint32_t>(s2[i]) * static_cast<uint32_t>(s2[i])"), (VH, "<= β2", "<= static_cast<uint32_t>(β2)"))
v("vf s1 last missing", "bad", "P07", (VH, "  for (size_t i = 0; i < N; i++) {\n    sqrd_norm += normalized", "  for (size_t i = 0; i + 1 < N; i++) {\n    sqrd_norm += normalized"))
v("vf s2 not counted", "bad", "P07", (VH, "    sqrd_norm += static_cast<int64_t>(s2[i]) * s2[i];\n", ""))
v("vf plus s2h", "bad", "P07", (VH, "  polynomial::neg<log2<N>()>(s1);             // s1 <- -s1 ( mod q ) [NTT]\n", ""))
v("vf not centred", "bad", "P07", (VH, "constexpr uint16_t qby2 = ff::Q / 2;", "constexpr uint16_t qby2 = ff::Q;"))
v("vf centre off by one", "bad", "P07", (VH, "constexpr uint16_t qby2 = ff::Q / 2;", "constexpr uint16_t qby2 = ff::Q / 2 + 1;"))
v("vf decode ignored", "bad", "P07", (VH, "if (!decoded) [[unlikely]]", "if (!decoded && s2[0] == 1) [[unlikely]]"), (VH, "int32_t s2[N];", "int32_t s2[N]{};"), (VH, "uint8_t salt[40];", "uint8_t salt[40]{};"))
v("vf salt short", "bad", "P07", (VH, "salt, sizeof(salt), msg", "salt, sizeof(salt) - 8, msg"))
v("vf msg short", "bad", "P07", (VH, "msg, mlen, c)", "msg, mlen & 0xffffff, c)"))
v("vf 16-bit s2", "bad", "P07", (VH, "sqrd_norm += static_cast<int64_t>(s2[i]) * s2[i];", "const int16_t t = static_cast<int16_t>(s2[i]); sqrd_norm += t * t;"))
v("vf negative s2 wrong", "bad", "P07", (VH, "(s2[i] < 0) * ff::Q + s2[i]", "(s2[i] < -1) * ff::Q + s2[i]"))
v("vf pk result ignored", "bad", "P07", ("falcon.hpp", "const size_t decoded = decoding::decode_pkey<N>(pkey, h);\n", "bool decoded = decoding::decode_pkey<N>(pkey, h);\n  decoded |= mlen == 0;\n"))
v("vf early exit", "ok", "P07", (VH, "  for (size_t i = 0; i < N; i++) {\n    sqrd_norm += normalized", "  if (sqrd_norm > β2) return false;\n  for (size_t i = 0; i < N; i++) {\n    sqrd_norm += normalized"))
v("vf two sums", "ok", "P07", (VH, "  for (size_t i = 0; i < N; i++) {\n    sqrd_norm += normalized_s1[i] * normalized_s1[i];\n  }\n\n  return sqrd_norm <= β2;", "  int64_t other = 0;\n  for (size_t i = N; i > 0; i--) {\n    const int64_t t = normalized_s1[i - 1];\n    other += t * t;\n  }\n\n  return !(sqrd_norm + other > β2);"))
v("vf one loop", "ok", "P07", (VH, "    sqrd_norm += static_cast<int64_t>(s2[i]) * s2[i];\n  }\n  for (size_t i = 0; i < N; i++) {\n", "    sqrd_norm += static_cast<int64_t>(s2[i]) * s2[i];\n"))
v("vf unsigned", "ok", "P07", (VH, "int64_t sqrd_norm = 0;", "uint64_t sqrd_norm = 0;"), (VH, "<= β2", "<= static_cast<uint64_t>(β2)"))
v("vf helper", "ok", "P07", (VH, "template<const size_t N, const int32_t β2>", "static inline int64_t sq(const int64_t x) { return x * x; }\ntemplate<const size_t N, const int32_t β2>"), (VH, "sqrd_norm += static_cast<int64_t>(s2[i]) * s2[i];", "sqrd_norm += sq(s2[i]);"))
v("vf centre if", "ok", "P07", (VH, "    const bool flg = s1[i].v > qby2;\n    const auto t0 = static_cast<int32_t>(s1[i].v);\n    const auto t1 = static_cast<int32_t>(flg * ff::Q);\n\n    normalized_s1[i] = t0 - t1;", "    int32_t t0 = s1[i].v;\n    if (t0 > qby2) { t0 = t0 - static_cast<int32_t>(ff::Q); }\n    normalized_s1[i] = t0;"))
v("vf other sign", "ok", "P07", (VH, "  polynomial::neg<log2<N>()>(s1);             // s1 <- -s1 ( mod q ) [NTT]\n  polynomial::add_to<log2<N>()>(s1, c); ", "  polynomial::neg<log2<N>()>(c);\n  polynomial::add_to<log2<N>()>(s1, c); "))
v("vf sub after intt", "ok", "P07", (VH, "  polynomial::neg<log2<N>()>(s1);             // s1 <- -s1 ( mod q ) [NTT]\n  polynomial::add_to<log2<N>()>(s1, c); ", ""), (VH, "  ntt::ntt<log2<N>()>(c);\n", ""), (VH, "  constexpr uint16_t qby2", "  for (size_t i = 0; i < N; i++) { s1[i] = c[i] - s1[i]; }\n  constexpr uint16_t qby2"))
v("vf s2 if", "ok", "P07", (VH, "s2_ntt[i].v = static_cast<uint16_t>((s2[i] < 0) * ff::Q + s2[i]);", "s2_ntt[i] = s2[i] < 0 ? ff::ff_t{ static_cast<uint16_t>(static_cast<int32_t>(ff::Q) + s2[i]) } : ff::ff_t{ static_cast<uint16_t>(s2[i]) };"))
v("vf large early", "ok", "P07", (VH, "  ff::ff_t s2_ntt[N];\n", "  for (size_t i = 0; i < N; i++) { if (s2[i] >= ff::Q || s2[i] <= -static_cast<int32_t>(ff::Q)) return false; }\n  ff::ff_t s2_ntt[N];\n"))
v("vf neg flag", "ok", "P07", (VH, "  return sqrd_norm <= β2;", "  const bool too_long = sqrd_norm > β2;\n  if (too_long) { return false; }\n  return true;"))

# ---------------------------------------------------------------- signing
SG = "signing.hpp"
v("sg partial norm", "bad", "P10", (SG, "if (sq_norm <= β2_) {", "if (sq_norm0 <= β2_) {"))
v("sg looser bound", "bad", "P10", (SG, "if (sq_norm <= β2_) {", "if (sq_norm <= β2_ * 1.21) {"))
v("sg half norm", "bad", "P10", ("ntru_gen.hpp", "return std::real(res) / N_;", "return std::real(res) / (2. * N_);"))
v("sg no norm", "bad", "P10", (SG, "if (sq_norm <= β2_) {", "if (sq_norm >= 0.) {"))
v("sg compress ignored", "bad", "P10", (SG, "if (compressed) {", "if (compressed || sig[slen - 1] != 0) {"))
v("sg compress ignored 2", "bad", "P10", (SG, "      if (compressed) {\n        break;\n      }", "      (void)compressed;\n      break;"))
v("sg attempts limited", "bad", "P10", (SG, "while (1) {", "for (size_t k = 0; k < 16; k++) {"))
v("sg short salt", "bad", "P10", (SG, "rng.read(salt, sizeof(salt));", "std::memset(salt, 0, 40); rng.read(salt, 32);"))
v("sg salt twice", "bad", "P10", (SG, "  sig[0] = header;", "  rng.read(salt, sizeof(salt));\n  sig[0] = header;"))
v("sg salt repeated", "bad", "P10", (SG, "rng.read(salt, sizeof(salt));", "rng.read(salt, 20); std::memcpy(salt + 20, salt, 20);"))
v("sg header", "bad", "P10", (SG, "0x30 | static_cast<uint8_t>(log2<N>())", "0x30 | 9"))
v("sg salt not copied", "bad", "P10", (SG, "std::memcpy(sig + 1, salt, sizeof(salt));", "std::memcpy(sig + 1, salt, 32);"))
v("sg message cut", "bad", "P10", (SG, "msg, mlen, c)", "msg, mlen & 0xffff, c)"))
v("sg key unchecked", "bad", "P10 P12", ("falcon.hpp", "  const bool decoded = decoding::decode_skey<N>(skey, f, g, F);\n  if (!decoded) [[unlikely]] {", "  std::memset(f, 0, sizeof f); std::memset(g, 0, sizeof g); std::memset(F, 0, sizeof F);\n  const bool decoded = decoding::decode_skey<N>(skey, f, g, F);\n  if (!decoded && mlen == 0) [[unlikely]] {"))
v("sg key false", "bad", "P10 P12", ("falcon.hpp", "    return decoded;\n  }\n\n  recompute_G", "    return !decoded;\n  }\n\n  recompute_G"))
v("sg target swapped", "bad", "P11", (SG, "polynomial::mul<log2<N>()>(c_fft, B + 3 * N, t0);", "polynomial::mul<log2<N>()>(c_fft, B + 2 * N, t0);"))
v("sg target sign", "bad", "P11", (SG, "t1[i] = -(t1[i] / q);", "t1[i] = t1[i] / q;"))
v("sg stale s1", "bad", "P11", (SG, "    polynomial::mul<log2<N>()>(tz1, B + 3 * N, tmp);\n    polynomial::add_to<log2<N>()>(s1, tmp);", "    polynomial::mul<log2<N>()>(tz1, B + 3 * N, tmp);\n    polynomial::add_to<log2<N>()>(s0, tmp);"))
v("sg s0 compressed", "bad", "P11", (SG, "fft::ifft<log2<N>()>(s1);", "fft::ifft<log2<N>()>(s0);"), (SG, "std::round(s1[i].real())", "std::round(s0[i].real())"))
v("sg truncate", "bad", "P11", (SG, "static_cast<int32_t>(std::round(s1[i].real()))", "static_cast<int32_t>(s1[i].real())"))
v("sg imag", "bad", "P11", (SG, "std::round(s1[i].real())", "std::round(s1[i].imag())"))
v("sg sigma min", "bad", "P11", ("falcon.hpp", "1.277833697, 1.298280334", "1.277833697, 1.277833697"))
v("sg last dropped", "bad", "P11", (SG, "    t1[i] = -(t1[i] / q);\n", "    if (i + 1 < N || N == 512) t1[i] = -(t1[i] / q);\n"))
v("sg tree offset", "bad", "P11", (SG, "(t0, t1, T, σ_min", "(t0, t1, T + 1, σ_min"))
v("sg G sign", "bad", "P12", ("falcon.hpp", "  polynomial::add_to<log2<N>()>(tmp, q);\n", "  polynomial::sub<log2<N>()>(tmp, q, G_);\n  std::memcpy((void*)tmp, G_, sizeof tmp);\n"))
v("sg B sign", "bad", "P12", ("falcon.hpp", "B[3 * N + i] = fft::cmplx{ -static_cast<double>(F[i]) };", "B[3 * N + i] = fft::cmplx{ static_cast<double>(F[i]) };"))
v("sg G truncated", "bad", "P12", ("falcon.hpp", "static_cast<int32_t>(std::round(G_[i].real()))", "static_cast<int32_t>(G_[i].real())"))
v("sg sigma", "bad", "P12", ("falcon.hpp", "165.736617183, 168.388571447", "168.388571447, 168.388571447"))
v("sg gram", "bad", "P12", ("keygen.hpp", "@all polynomial::adj_poly", "(void)0; polynomial::adj_poly") if False else ("falcon.hpp", "falcon_tree::normalize_tree<N, 0, log2<N>()>(T, σ);", "falcon_tree::normalize_tree<N, 0, log2<N>()>(T, σ * 0.5);"))
ALL3 = "P10 P11 P12"
v("sg for loop", "ok", ALL3, (SG, "while (1) {", "bool done = false;\n  do {"), (SG, "        break;\n", "        done = true;\n"), (SG, "    }\n  }\n\n  sig[0]", "    }\n  } while (!done);\n\n  sig[0]"))
v("sg continue", "ok", ALL3, (SG, "    if (sq_norm <= β2_) {", "    if (sq_norm > β2_) { continue; }\n    {"))
v("sg and", "ok", ALL3, (SG, "    if (sq_norm <= β2_) {", "    const bool shrt = !(sq_norm > β2_);\n    if (shrt) {"))
v("sg header first", "ok", ALL3, (SG, "  sig[0] = header;\n  std::memcpy(sig + 1, salt, sizeof(salt));", ""), (SG, "  fft::cmplx t0[N];\n", "  sig[0] = header;\n  for (size_t i = 0; i < 40; i++) { sig[1 + i] = salt[i]; }\n  fft::cmplx t0[N];\n"))
v("sg reciprocal", "ok", ALL3, (SG, "    t0[i] /= q;\n    t1[i] = -(t1[i] / q);", "    t0[i] *= 1. / ff::Q;\n    t1[i] *= -1. / ff::Q;"))
v("sg norm at once", "ok", ALL3, (SG, "    const double sq_norm0 = ntru_gen::sqrd_norm<log2<N>()>(s0);\n    const double sq_norm1 = ntru_gen::sqrd_norm<log2<N>()>(s1);\n    const double sq_norm = sq_norm0 + sq_norm1;", "    double sq_norm = 0;\n    for (size_t i = N; i > 0; i--) { sq_norm += std::norm(s0[i - 1]) + std::norm(s1[i - 1]); }\n    sq_norm /= N;"))
v("sg integer norm", "ok", ALL3, (SG, "if (sq_norm <= β2_) {", "if (static_cast<int64_t>(sq_norm) <= β2) {"))
v("sg helper", "ok", ALL3, (SG, "template<const size_t N, const int32_t β2, const size_t slen>", "template<const size_t N>\nstatic inline void\nvec_mul(const fft::cmplx* const x, const fft::cmplx* const y, const fft::cmplx* const b0, const fft::cmplx* const b1, fft::cmplx* const r)\n{\n  for (size_t i = 0; i < N; i++) { r[i] = x[i] * b0[i] + y[i] * b1[i]; }\n}\n\ntemplate<const size_t N, const int32_t β2, const size_t slen>"),
  (SG, "    polynomial::mul<log2<N>()>(tz0, B, s0);\n    polynomial::mul<log2<N>()>(tz1, B + 2 * N, tmp);\n    polynomial::add_to<log2<N>()>(s0, tmp);\n", "    vec_mul<N>(tz0, tz1, B, B + 2 * N, s0);\n"))
v("sg temp buffer", "ok", ALL3, (SG, "encoding::compress_sig<N, slen>(s2, sig);", "encoding::compress_sig<N, slen>(s2, buf);"), (SG, "  while (1) {", "  uint8_t buf[slen];\n  while (1) {"), (SG, "  sig[0] = header;", "  std::memcpy(sig + 41, buf + 41, slen - 41);\n  sig[0] = header;"))
v("sg minus f later", "ok", ALL3, ("falcon.hpp", "    B[N + i] = fft::cmplx{ -static_cast<double>(f[i]) };", "    B[N + i] = fft::cmplx{ static_cast<double>(-f[i]) };"))
v("sg G by hand", "ok", ALL3, ("falcon.hpp", "  polynomial::mul<log2<N>()>(g_, F_, tmp);\n  polynomial::add_to<log2<N>()>(tmp, q);\n  polynomial::div<log2<N>()>(tmp, f_, G_);", "  for (size_t i = 0; i < N; i++) { G_[i] = (g_[i] * F_[i] + q[i]) / f_[i]; }"))
v("sg retries counted", "ok", ALL3, (SG, "while (1) {", "size_t tries = 0;\n  while (1) {\n    tries++;"))

# ------------------------------------------------------------------- tree
TR, FS = "falcon_tree.hpp", "ffsampling.hpp"
v("tr g01", "bad", "P18", (TR, "const fft::cmplx* g10 = G + 2 * N;", "const fft::cmplx* g10 = G + N;"))
v("tr d11", "bad", "P18", (TR, "polynomial::mul<log2<N>()>(tmp1, g00, tmp0);", "polynomial::mul<log2<N>()>(tmp1, g11, tmp0);"))
v("tr no adj", "bad", "P18", (TR, "  fft::adj_poly<log2<N>()>(tmp0);\n", ""))
v("tr child order", "bad", "P18", (TR, "    ffldl<N / 2, AT_LEVEL + 1, T_HEIGHT>(G0, T + tree_off);\n    ffldl<N / 2, AT_LEVEL + 1, T_HEIGHT>(G1, T + tree_off + (N / 2));", "    ffldl<N / 2, AT_LEVEL + 1, T_HEIGHT>(G1, T + tree_off);\n    ffldl<N / 2, AT_LEVEL + 1, T_HEIGHT>(G0, T + tree_off + (N / 2));"))
v("tr leaf", "bad", "P18", (TR, "std::memcpy(T + tree_off + (N / 2), D11, sizeof(D11) / 2);", "std::memcpy(T + tree_off + (N / 2), D00, sizeof(D11) / 2);"))
v("tr norm leaf", "bad", "P18", (TR, "T[tree_off] = σ / std::sqrt(T[tree_off].real());", "T[tree_off] = σ / std::sqrt(T[tree_off].real() * 2.);"))
v("tr norm nosqrt", "bad", "P18", (TR, "σ / std::sqrt(T[tree_off + (N / 2)].real());", "σ / T[tree_off + (N / 2)].real();"))
v("tr norm skip", "bad", "P18", (TR, "    normalize_tree<N / 2, AT_LEVEL + 1, T_HEIGHT>(T + tree_off + (N / 2), σ);\n", "    if constexpr (N > 4) {\n      normalize_tree<N / 2, AT_LEVEL + 1, T_HEIGHT>(T + tree_off + (N / 2), σ);\n    }\n"))
v("tr gram", "bad", "P18", ("keygen.hpp", "  fft::adj_poly<log2<N>()>(B_adj + 2 * N);\n", ""))
v("tr ldl inline", "ok", "P18", (TR, "  std::memcpy(tmp0, l10, sizeof(tmp0));\n  fft::adj_poly<log2<N>()>(tmp0);\n  polynomial::mul<log2<N>()>(l10, tmp0, tmp1);\n  polynomial::mul<log2<N>()>(tmp1, g00, tmp0);\n  polynomial::sub<log2<N>()>(g11, tmp0, d11);", "  for (size_t i = 0; i < N; i++) { tmp0[i] = l10[i] * std::conj(g10[i]); tmp1[i] = g11[i] - tmp0[i]; d11[i] = tmp1[i]; }"))
v("tr split late", "ok", "P18", (TR, "    fft::split_fft<log2<N>()>(D11, d10, d11);\n", ""), (TR, "    std::memcpy(G1, d10, sizeof(d10));", "    ffldl<N / 2, AT_LEVEL + 1, T_HEIGHT>(G0, T + tree_off);\n    fft::split_fft<log2<N>()>(D11, d10, d11);\n    std::memcpy(G1, d10, sizeof(d10));"), (TR, "    ffldl<N / 2, AT_LEVEL + 1, T_HEIGHT>(G0, T + tree_off);\n    ffldl<N / 2, AT_LEVEL + 1, T_HEIGHT>(G1", "    ffldl<N / 2, AT_LEVEL + 1, T_HEIGHT>(G1"))
v("tr helper", "ok", "P18", (TR, "template<const size_t N, const size_t AT_LEVEL, const size_t T_HEIGHT>\nstatic inline void\nffldl", "template<const size_t N>\nstatic inline void\nfill(fft::cmplx* const G, const fft::cmplx* const e, const fft::cmplx* const o)\n{\n  for (size_t i = 0; i < N; i++) {\n    G[i] = G[3 * N + i] = e[i];\n    G[N + i] = o[i];\n    G[2 * N + i] = std::conj(o[i]);\n  }\n}\n\ntemplate<const size_t N, const size_t AT_LEVEL, const size_t T_HEIGHT>\nstatic inline void\nffldl"),
  (TR, "    std::memcpy(G1, d10, sizeof(d10));\n    std::memcpy(G1 + (N / 2), d11, sizeof(d11));\n    std::memcpy(G1 + N, d11, sizeof(d11));\n    std::memcpy(G1 + N + (N / 2), d10, sizeof(d10));\n    fft::adj_poly<log2<N>()>(G1 + N);", "    fill<N / 2>(G1, d10, d11);"))
v("tr norm lambda", "ok", "P18", (TR, "    T[tree_off] = σ / std::sqrt(T[tree_off].real());\n    T[tree_off + (N / 2)] = σ / std::sqrt(T[tree_off + (N / 2)].real());", "    for (size_t i = 0; i < N; i++) {\n      const double d = std::sqrt(T[tree_off + i].real());\n      T[tree_off + i] = fft::cmplx{ σ / d };\n    }"))
v("fs left first", "bad", "P19", (FS, "T_HEIGHT>(t1_0, t1_1, Tr, ", "T_HEIGHT>(t1_0, t1_1, Tl, "))
v("fs wrong centre", "bad", "P19", (FS, "polynomial::sub<log2<N>()>(t1, merged_z1, tmp0);", "polynomial::sub<log2<N>()>(merged_z1, t1, tmp0);"))
v("fs no l", "bad", "P19", (FS, "    fft::split_fft<log2<N>()>(tmp0, t0_0, t0_1);", "    fft::split_fft<log2<N>()>(t0, t0_0, t0_1);"))
v("fs clobbered", "bad", "P19", (FS, "    const auto z0r = z0l + (N / 2);\n    const auto z1r = z1l + (N / 2);", "    const auto z0r = z0l;\n    const auto z1r = z1l;"), (FS, "    fft::merge_fft<log2<N>()>(z0l, z1l, merged_z0);", "    fft::merge_fft<log2<N>()>(z0l, z1l, merged_z0);\n    fft::merge_fft<log2<N>()>(z0r, z1r, merged_z1);"))
v("fs leaf sigma", "bad", "P19", (FS, "samplerz::samplerz(t1[0].real(), σ_prime, σ_min, rng);", "samplerz::samplerz(t1[0].real(), σ_prime, σ_prime, rng);"))
v("fs leaf imag", "bad", "P19", (FS, "samplerz::samplerz(t1[0].real()", "samplerz::samplerz(t1[0].imag()"))
v("fs leaf once", "bad", "P19", (FS, "    z1[0] = fft::cmplx{ static_cast<double>(z1_) };", "    z1[0] = z0[0];"))
v("fs by hand", "ok", "P19", (FS, "    polynomial::sub<log2<N>()>(t1, merged_z1, tmp0);\n    polynomial::mul<log2<N>()>(tmp0, l, tmp1);\n    polynomial::add<log2<N>()>(t0, tmp1, tmp0);", "    for (size_t i = 0; i < N; i++) { tmp1[i] = t1[i] - merged_z1[i]; tmp0[i] = l[i] * tmp1[i] + t0[i]; }"))
v("fs direct merge", "ok", "P19", (FS, "    fft::cmplx merged_z0[N];\n    fft::merge_fft<log2<N>()>(z0l, z1l, merged_z0);", "    fft::cmplx merged_z0[N];\n    std::copy_n(merged_z1, N, z1 + 0 * N == nullptr ? tmp1 : tmp1);\n    fft::merge_fft<log2<N>()>(z0l, z1l, merged_z0);"))
v("fs own buffers", "ok", "P19", (FS, "    const auto z0l = z0;\n    const auto z1l = z1;\n", "    fft::cmplx z0l[N];\n    fft::cmplx z1l[N];\n"))

# ------------------------------------------------------------------- hash
HH = "hashing.hpp"
v("ha edge", "bad", "P13", (HH, "if (t < kq) {", "if (t <= kq) {"))
v("ha 4q", "bad", "P13", (HH, "constexpr size_t k = m / q;", "constexpr size_t k = m / q - 1;"))
v("ha all", "bad", "P13", (HH, "if (t < kq) {", "if (t < 0xffff) {"))
v("ha little endian", "bad", "P13", (HH, "(static_cast<uint16_t>(buf[off + 0]) << 8) |\n                         (static_cast<uint16_t>(buf[off + 1]) << 0);", "(static_cast<uint16_t>(buf[off + 1]) << 8) |\n                         (static_cast<uint16_t>(buf[off + 0]) << 0);"))
v("ha unreduced", "bad", "P13", (HH, "poly[coeff_idx] = ff::ff_t{ t };", "poly[coeff_idx].v = t;"))
v("ha reduced once", "bad", "P13", (HH, "poly[coeff_idx] = ff::ff_t{ t };", "poly[coeff_idx].v = t >= 3 * ff::Q ? t - 3 * ff::Q : t >= ff::Q ? t - ff::Q : t;"))
v("ha message first", "bad", "P13", (HH, "  hasher.absorb(salt, slen);\n  hasher.absorb(msg, mlen);", "  hasher.absorb(msg, mlen);\n  hasher.absorb(salt, slen);"))
v("ha no salt", "bad", "P13", (HH, "  hasher.absorb(salt, slen);\n", ""))
v("ha short salt", "bad", "P13", (HH, "hasher.absorb(salt, slen);", "hasher.absorb(salt, 32);"))
v("ha last pair", "bad", "P13", (HH, "off < sizeof(buf)) &&", "off + 2 < sizeof(buf)) &&"))
v("ha reject repeats", "bad", "P13", (HH, "      if (t < kq) {\n        poly[coeff_idx] = ff::ff_t{ t };\n        coeff_idx++;\n      }", "      if (t < kq) {\n        poly[coeff_idx] = ff::ff_t{ t };\n        coeff_idx++;\n      } else if (coeff_idx == 0) {\n        off = sizeof(buf);\n      }"))
v("ha reject counts", "bad", "P13", (HH, "        coeff_idx++;\n      }", "        coeff_idx++;\n      } else if (coeff_idx + 1 == n && off + 2 == sizeof(buf)) {\n        poly[coeff_idx++] = ff::ff_t{ 0 };\n      }"))
v("ha pairs", "ok", "P13", (HH, "uint8_t buf[shake256::rate >> 3];", "uint8_t buf[2];"))
v("ha continue", "ok", "P13", (HH, "      if (t < kq) {\n        poly[coeff_idx] = ff::ff_t{ t };\n        coeff_idx++;\n      }", "      if (t >= kq) { continue; }\n      poly[coeff_idx++] = ff::ff_t{ static_cast<uint16_t>(t % ff::Q) };"))
v("ha helper", "ok", "P13", (HH, "template<const size_t n>", "static inline uint32_t be16(const uint8_t* const p) { return (static_cast<uint32_t>(p[0]) << 8) ^ p[1]; }\n\ntemplate<const size_t n>"), (HH, "const uint16_t t = (static_cast<uint16_t>(buf[off + 0]) << 8) |\n                         (static_cast<uint16_t>(buf[off + 1]) << 0);", "const uint16_t t = be16(buf + off);"))
v("ha while", "ok", "P13", (HH, "for (size_t off = 0; (off < sizeof(buf)) && (coeff_idx < n); off += 2) {", "size_t off = 0;\n    while (off != sizeof(buf)) {\n      if (coeff_idx == n) break;\n"), (HH, "        coeff_idx++;\n      }", "        coeff_idx++;\n      }\n      off += 2;"))
v("ha branchless", "ok", "P13", (HH, "      if (t < kq) {\n        poly[coeff_idx] = ff::ff_t{ t };\n        coeff_idx++;\n      }", "      poly[coeff_idx] = ff::ff_t{ t };\n      coeff_idx += (t < kq);"))
v("ha subtract", "ok", "P13", (HH, "poly[coeff_idx] = ff::ff_t{ t };", "uint16_t r = t; r -= (r >= 4 * ff::Q) ? 4 * ff::Q : 0; r -= (r >= 2 * ff::Q) ? 2 * ff::Q : 0; r -= (r >= ff::Q) ? ff::Q : 0; poly[coeff_idx] = ff::ff_t{ r };"))

# ------------------------------------------------------------------- prng, sampler
PG, SZ = "prng.hpp", "samplerz.hpp"
v("pr short seed", "bad", "P16", (PG, "uint8_t seed[32];", "uint8_t seed[16];"))
v("pr half seeded", "bad", "P16", (PG, "i < sizeof(seed); i++", "i < sizeof(seed); i += 2"), (PG, "uint8_t seed[32];", "uint8_t seed[32]{};"))
v("pr masked", "bad", "P16", (PG, "static_cast<uint8_t>(rd());", "static_cast<uint8_t>(rd()) & 0x7f;"))
v("pr one draw", "bad", "P16", (PG, "uint8_t seed[32];", "uint8_t seed[32];\n    const uint32_t e = rd();"), (PG, "static_cast<uint8_t>(rd());", "static_cast<uint8_t>(e >> (8 * (i & 3)));"))
v("pr hash short", "bad", "P16", (PG, "state.hash(seed, sizeof(seed));", "state.hash(seed, 8);"))
v("pr read rounds", "bad", "P16", (PG, "state.read(bytes, len);", "state.read(bytes, len);\n    if (len == 40) { uint8_t t; state.read(&t, 1); }"))
v("pr four bytes", "ok", "P16", (PG, "    for (size_t i = 0; i < sizeof(seed); i++) {\n      seed[i] = static_cast<uint8_t>(rd());\n    }", "    for (size_t i = 0; i < sizeof(seed); i += 4) {\n      const uint32_t e = rd();\n      seed[i] = e; seed[i + 1] = e >> 8; seed[i + 2] = e >> 16; seed[i + 3] = e >> 24;\n    }"))
v("pr read loop", "ok", "P16", (PG, "state.read(bytes, len);", "for (size_t i = 0; i < len; i++) { state.read(bytes + i, 1); }"))
v("sz pdt entry", "bad", "P17", (SZ, "{ 0ul, 14354889437ul }", "{ 0ul, 14354889337ul }"))
v("sz 17 entries", "bad", "P17", (SZ, "@all for (size_t i = 0; i < 18; i++)", "for (size_t i = 0; i < 17; i++)") if False else (SZ, "  rng.read(bytes.data(), bytes.size());\n\n  const u72::u72_t u = u72::u72_t::from_le_bytes(std::move(bytes));\n\n  uint32_t z0 = 0u;\n  for (size_t i = 0; i < 18; i++) {", "  rng.read(bytes.data(), bytes.size());\n\n  const u72::u72_t u = u72::u72_t::from_le_bytes(std::move(bytes));\n\n  uint32_t z0 = 0u;\n  for (size_t i = 0; i < 17; i++) {"))
v("sz big endian", "bad", "P17", (SZ, "  rng.read(bytes.data(), bytes.size());\n\n  const u72::u72_t u = u72::u72_t::from_le_bytes", "  rng.read(bytes.data(), bytes.size());\n\n  const u72::u72_t u = u72::u72_t::from_be_bytes"))
v("sz 8 bytes", "bad", "P17", (SZ, "  std::array<uint8_t, 9> bytes;\n  rng.read(bytes.data(), bytes.size());", "  std::array<uint8_t, 9> bytes{};\n  rng.read(bytes.data(), 8);"))
v("sz C entry", "bad", "P17", (SZ, "0x000680681CF796E3ul", "0x000680681CF796E2ul"))
v("sz top 62", "bad", "P17", (SZ, "((v.first & mask) << 1) | (v.second >> 63)", "((v.first & mask) << 1)"))
v("sz approx 11", "bad", "P17", (SZ, "for (size_t u = 1; u < 13; u++)", "for (size_t u = 1; u < 12; u++)"))
v("sz scale", "bad", "P17", (SZ, "std::floor(9223372036854775808. * ccs)", "std::floor(4611686018427387904. * ccs)"))
v("sz ber cap", "bad", "P17", (SZ, "const uint64_t s_ = std::min<uint64_t>(static_cast<uint64_t>(s), 63ul);\n  const uint64_t z = (2 * approx_exp(r, ccs) - 1) >> s_;\n\n  int32_t w = 0;\n  int64_t i = 64l;\n  do {\n    i = i - 8l;\n\n    uint8_t t0;", "const uint64_t s_ = static_cast<uint64_t>(s) & 63ul;\n  const uint64_t z = (2 * approx_exp(r, ccs) - 1) >> s_;\n\n  int32_t w = 0;\n  int64_t i = 64l;\n  do {\n    i = i - 8l;\n\n    uint8_t t0;"))
v("sz ber bytes", "bad", "P17", (SZ, "    w = static_cast<int32_t>(t0) - static_cast<int32_t>((z >> i) & 0xfful);\n  } while ((w == 0) && (i > 0l));", "    w = static_cast<int32_t>(t0) - static_cast<int32_t>((z >> i) & 0xfful);\n  } while ((w == 0) && (i > 8l));"))
v("sz ber le", "bad", "P17", (SZ, "  } while ((w == 0) && (i > 0l));\n\n  return w < 0;", "  } while ((w == 0) && (i > 0l));\n\n  return w <= 0;"))
v("sz ber mask", "bad", "P17", (SZ, "    w = static_cast<int32_t>(t0) - static_cast<int32_t>((z >> i) & 0xfful);\n  } while ((w == 0) && (i > 0l));", "    w = static_cast<int32_t>(t0) - static_cast<int32_t>((z >> i) & 0x7ful);\n  } while ((w == 0) && (i > 0l));"))
v("sz r", "bad", "P17", (SZ, "  const double r = μ - std::floor(μ);\n  const double ccs = σ_min / σ_prime;\n\n  const double t0 = 1. / (2. * σ_prime * σ_prime);\n  constexpr double t1 = 1. / (2. * σ_max * σ_max);\n\n  while (true) {", "  const double r = μ - std::round(μ);\n  const double ccs = σ_min / σ_prime;\n\n  const double t0 = 1. / (2. * σ_prime * σ_prime);\n  constexpr double t1 = 1. / (2. * σ_max * σ_max);\n\n  while (true) {"))
v("sz smax", "bad", "P17", (SZ, "constexpr double σ_max = 1.8205;", "constexpr double σ_max = 1.8250;"))
v("sz same bit", "bad", "P17", (SZ, "  while (true) {\n    const auto z0 = static_cast<int32_t>(base_sampler(rng));\n\n    uint8_t v;\n    rng.read(&v, sizeof(v));\n", "  uint8_t v;\n  rng.read(&v, sizeof(v));\n  while (true) {\n    const auto z0 = static_cast<int32_t>(base_sampler(rng));\n\n"))
v("sz floor mu", "bad", "P17", (SZ, "    const auto t7 = ber_exp(x, ccs, rng);\n    if (t7 == 1) {\n      return static_cast<int32_t>(z + std::floor(μ));", "    const auto t7 = ber_exp(x, ccs, rng);\n    if (t7 == 1) {\n      return static_cast<int32_t>(z + μ);"))
v("sz sign", "bad", "P17", (SZ, "    const auto b = v & 0b1;\n", "    const auto b = (v >> 1) & 0b1;\n"))
v("sz tries", "bad", "P17", (SZ, "    const auto t7 = ber_exp(x, ccs, rng);\n    if (t7 == 1) {", "    const auto t7 = ber_exp(x, ccs, rng);\n    if (t7 == 1 || z0 > 12) {"))
v("sz base if", "ok", "P17", (SZ, "  rng.read(bytes.data(), bytes.size());\n\n  const u72::u72_t u = u72::u72_t::from_le_bytes(std::move(bytes));\n\n  uint32_t z0 = 0u;\n  for (size_t i = 0; i < 18; i++) {\n    z0 = z0 + 1u * (u < RCDT[i]);\n  }\n\n  return z0;", "  rng.read(bytes.data(), bytes.size());\n\n  const u72::u72_t u = u72::u72_t::from_le_bytes(std::move(bytes));\n  uint32_t z0 = 18u;\n  while (z0 > 0 && !(u < RCDT[z0 - 1])) { z0--; }\n  return z0;"))
v("sz base limbs", "ok", "P17", (SZ, "static inline uint32_t\nbase_sampler(prng", "static inline bool less(const u72::u72_t& a, const u72::u72_t& b) { return a.hi < b.hi || (a.hi == b.hi && a.lo < b.lo); }\n\nstatic inline uint32_t\nbase_sampler(prng"), (SZ, "  rng.read(bytes.data(), bytes.size());\n\n  const u72::u72_t u = u72::u72_t::from_le_bytes(std::move(bytes));\n\n  uint32_t z0 = 0u;\n  for (size_t i = 0; i < 18; i++) {\n    z0 = z0 + 1u * (u < RCDT[i]);\n  }", "  rng.read(bytes.data(), bytes.size());\n\n  const u72::u72_t u = u72::u72_t::from_le_bytes(std::move(bytes));\n\n  uint32_t z0 = 0u;\n  for (size_t i = 18; i-- > 0;) {\n    if (less(u, RCDT[i])) { z0++; }\n  }"))
v("sz top shift", "ok", "P17", (SZ, "  constexpr uint64_t mask = (1ul << 62) - 1ul;\n  return ((v.first & mask) << 1) | (v.second >> 63);", "  const uint64_t t = (v.first << 1) + (v.second >> 63);\n  return t & 0x7ffffffffffffffful;"))
v("sz approx while", "ok", "P17", (SZ, "  for (size_t u = 1; u < 13; u++) {\n    const auto t0 = full_mul_u64(z, y);\n    const auto t1 = top_63_bits(t0);\n    y = C[u] - t1;\n  }", "  size_t u = 0;\n  while (++u < 13) { y = C[u] - top_63_bits(full_mul_u64(z, y)); }"))
v("sz ber for", "ok", "P17", (SZ, "  int32_t w = 0;\n  int64_t i = 64l;\n  do {\n    i = i - 8l;\n\n    uint8_t t0;\n    rng.read(&t0, sizeof(t0));\n\n    w = static_cast<int32_t>(t0) - static_cast<int32_t>((z >> i) & 0xfful);\n  } while ((w == 0) && (i > 0l));\n\n  return w < 0;", "  for (int i = 56; i >= 0; i -= 8) {\n    uint8_t t0;\n    rng.read(&t0, 1);\n    const uint8_t zb = static_cast<uint8_t>(z >> i);\n    if (t0 != zb) { return t0 < zb; }\n  }\n  return 0;"))
v("sz ber cap if", "ok", "P17", (SZ, "const double r = x - s * LN2;\n  const uint64_t s_ = std::min<uint64_t>(static_cast<uint64_t>(s), 63ul);\n  const uint64_t z = (2 * approx_exp(r, ccs) - 1) >> s_;\n\n  int32_t w = 0;\n  int64_t i = 64l;\n  do {\n    i = i - 8l;\n\n    uint8_t t0;", "uint64_t s_ = static_cast<uint64_t>(x * INV_LN2);\n  const double r = x - static_cast<double>(s_) * LN2;\n  if (s_ > 63) { s_ = 63; }\n  const uint64_t z = (2 * approx_exp(r, ccs) - 1) >> s_;\n\n  int32_t w = 0;\n  int64_t i = 64l;\n  do {\n    i = i - 8l;\n\n    uint8_t t0;"))
v("sz x by hand", "ok", "P17", (SZ, "    const auto x = t4 - t6;\n    const auto t7 = ber_exp(x, ccs, rng);\n    if (t7 == 1) {\n      return static_cast<int32_t>(z + std::floor(μ));\n    }\n  }\n}\n", "    const auto x = t4 - t6;\n    if (ber_exp(x, ccs, rng)) {\n      const int32_t base = static_cast<int32_t>(std::floor(μ));\n      return base + (b ? z0 + 1 : -z0);\n    }\n  }\n}\n"), (SZ, "    const auto b = v & 0b1;\n    const auto z = static_cast<double>(b + (2 * b - 1) * z0);", "    const auto b = v & 0b1;\n    const double z = b ? 1. + z0 : -1. * z0;"))

# P15
NG, KA = "ntru_gen.hpp", "karatsuba.hpp"
v("nt kara mid", "bad", "P15", (KA, "polyaxbx[i] - mpz_class(polya0b0[i] + polya1b1[i])", "polyaxbx[i] - mpz_class(polya0b0[i] - polya1b1[i])"))
v("nt kara half", "bad", "P15", (KA, "polybx[i] = polyb[i] + polyb[Nby2 + i];", "polybx[i] = polyb[i] + polyb[(Nby2 + i) % (N - (N > 512))];"))
v("nt karamul plus", "bad", "P15", (KA, "res[i] = polyab[i] - polyab[N + i];", "res[i] = polyab[i] - polyab[N + i - (i == N - 1)];"))
v("nt norm sign", "bad", "P15", (NG, "res[0] = res[0] + polyo_sq[Nby2 - 1];", "res[0] = res[0] - polyo_sq[Nby2 - 1];"))
v("nt norm last", "bad", "P15", (NG, "for (size_t i = 0; i < Nby2 - 1; i++) {\n    res[i + 1]", "for (size_t i = 0; i + 2 < Nby2; i++) {\n    res[i + 1]"))
v("nt galois parity", "bad", "P15", (NG, "    if (i & 1) {\n      res[i] = -poly[i];", "    if (!(i & 1)) {\n      res[i] = -poly[i];"))
v("nt lift odd", "bad", "P15", (NG, "    res[2 * i] = poly[i];", "    res[2 * i + (N == 256)] = poly[i];"))
v("nt xgcd t", "bad", "P15", (NG, "    t = tmp - mpz_class(quotient * t);", "    t = tmp - mpz_class(quotient * s);"))
v("nt xgcd swap", "bad", "P15", (NG, "    old_s, // a\n    old_t, // b", "    old_t, // a\n    old_s, // b"))
v("nt xgcd stop", "bad", "P15", (NG, "while (r != mpz_class{ 0 }) {", "while (r > mpz_class{ 0 }) {"))
v("nt q sign", "bad", "P15", (NG, "mpz_class(-q * ret[1])", "mpz_class(q * ret[1])"))
v("nt gcd minus one", "bad", "P15", (NG, "if (ret[2] != mpz_class{ 1 }) {", "if (ret[2] > mpz_class{ 1 }) {"))
v("nt status lost", "bad", "P15", (NG, "      return { {}, ret.second };", "      return { {}, {} };"))
v("nt wrong conj", "bad", "P15", (NG, "lift(ret.first.second), galois_conjugate(f)", "lift(ret.first.second), f"))
v("nt reduce gk", "bad", "P15", (NG, "gk = karatsuba::karamul(g, k_mpz)", "gk = karatsuba::karamul(f, k_mpz)"))
v("nt reduce shift", "bad", "P15", (NG, "G[i] = G[i] - mpz_class(gk[i] << (blen1 - blen0));", "G[i] = G[i] - mpz_class(gk[i] << ((blen1 - blen0) & 255));"))
v("nt reduce 52", "bad", "P15", (NG, "f[i] >> (blen0 - 53ul)", "f[i] >> (blen0 - 52ul)"))
v("nt reduce adj", "bad", "P15", (NG, "polynomial::mul<log2<N>()>(G_adjust, g_adjoint, Gg_mul);", "polynomial::mul<log2<N>()>(G_adjust, g_adjust, Gg_mul);"))
v("nt minmax last", "bad", "P15", (NG, "  for (size_t i = 1; i < N; i++) {\n    if (min > arr[i]) {", "  for (size_t i = 1; i + 1 < N; i++) {\n    if (min > arr[i]) {"))
v("nt bitlen sign", "bad", "P15", (NG, "  mpz_abs(v_.get_mpz_t(), v.get_mpz_t());", "  mpz_set(v_.get_mpz_t(), v.get_mpz_t());"))
v("nt bitlen min", "bad", "P15", (NG, "std::max(approx_bit_len(Fmm.first), approx_bit_len(Fmm.second))", "std::max(approx_bit_len(Fmm.first), approx_bit_len(Fmm.first))"))
v("nt nonzero first", "bad", "P15", (NG, "      atleast_one_nonzero |= k_rounded[i] != 0;", "      atleast_one_nonzero = k_rounded[i] != 0;"))
v("nt k trunc", "bad", "P15", (NG, "static_cast<signed long>(std::round(k[i].real()))", "static_cast<signed long>(k[i].real())"))
v("nt kara school", "ok", "P15", (KA, "  if constexpr (N == 1) {\n    return { mpz_class(polya[0] * polyb[0]), mpz_class(0) };\n  } else {", "  if constexpr (N <= 8) {\n    std::array<mpz_class, 2 * N> r{};\n    for (size_t i = 0; i < N; i++) {\n      for (size_t j = 0; j < N; j++) {\n        r[i + j] += polya[i] * polyb[j];\n      }\n    }\n    return r;\n  } else {"))
v("nt kara inplace", "ok", "P15", (KA, "polyaxbx[i] = polyaxbx[i] - mpz_class(polya0b0[i] + polya1b1[i]);", "polyaxbx[i] -= polya0b0[i];\n      mpz_sub(polyaxbx[i].get_mpz_t(), polyaxbx[i].get_mpz_t(), polya1b1[i].get_mpz_t());"))
v("nt norm galois", "ok", "P15", (NG, "  constexpr size_t Nby2 = N / 2;\n  using nby2poly_t = std::array<mpz_class, Nby2>;\n\n  nby2poly_t polye;", "  if constexpr (N <= 64) {\n    std::array<mpz_class, N> c = poly;\n    for (size_t i = 1; i < N; i += 2) { c[i] = -c[i]; }\n    const auto p = karatsuba::karamul(poly, c);\n    std::array<mpz_class, N / 2> r;\n    for (size_t i = 0; i < N / 2; i++) { r[i] = p[2 * i]; }\n    return r;\n  }\n  constexpr size_t Nby2 = N / 2;\n  using nby2poly_t = std::array<mpz_class, Nby2>;\n\n  nby2poly_t polye;"))
v("nt xgcd lib", "ok", "P15", (NG, "  mpz_class old_r{ x }, r{ y };", "  mpz_class gg, aa, bb;\n  mpz_gcdext(gg.get_mpz_t(), aa.get_mpz_t(), bb.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t());\n  if (true) { return { aa, bb, gg }; }\n  mpz_class old_r{ x }, r{ y };"))
v("nt bitlen lib", "ok", "P15", (NG, "  size_t len = 0;\n  while (v_ > zero) {\n    len += 8;\n    v_ = v_ >> 8;\n  }\n\n  return len;", "  return v_ == zero ? 0 : (mpz_sizeinbase(v_.get_mpz_t(), 2) + 7) / 8 * 8;"))
v("nt reduce submul", "ok", "P15", (NG, "      F[i] = F[i] - mpz_class(fk[i] << (blen1 - blen0));\n      G[i] = G[i] - mpz_class(gk[i] << (blen1 - blen0));", "      F[i] -= fk[i] << (blen1 - blen0);\n      mpz_class t;\n      mpz_mul_2exp(t.get_mpz_t(), gk[i].get_mpz_t(), blen1 - blen0);\n      G[i] = G[i] - t;"))
v("nt reduce helper", "ok", "P15", (NG, "// Given four polynomials of degree N, this routine reduces F, G w.r.t. f, g", "template<const size_t N>\nstatic inline size_t widest(const std::array<mpz_class, N>& a, const std::array<mpz_class, N>& b) {\n  size_t r = 53;\n  for (size_t i = 0; i < N; i++) { r = std::max(r, std::max(approx_bit_len(a[i]), approx_bit_len(b[i]))); }\n  return r;\n}\n\n// Given four polynomials of degree N, this routine reduces F, G w.r.t. f, g"),
  (NG, "    const std::pair<mpz_class, mpz_class> Fmm = min_max(F);\n    const std::pair<mpz_class, mpz_class> Gmm = min_max(G);\n\n    const size_t blen1 = std::max(\n      53ul,\n      std::max(\n        std::max(approx_bit_len(Fmm.first), approx_bit_len(Fmm.second)),\n        std::max(approx_bit_len(Gmm.first), approx_bit_len(Gmm.second))));\n", "    const size_t blen1 = widest<N>(F, G);\n"))
v("nt minmax else", "ok", "P15", (NG, "    if (min > arr[i]) {\n      min = arr[i];\n    }\n    if (max < arr[i]) {\n      max = arr[i];\n    }", "    if (arr[i] < min) {\n      min = arr[i];\n    } else if (arr[i] > max) {\n      max = arr[i];\n    }"))
v("nt nonzero break", "ok", "P15", (NG, "      atleast_one_nonzero |= k_rounded[i] != 0;", "      if (k_rounded[i]) { atleast_one_nonzero = true; break; }"))
v("nt no lift", "ok", "P15", (NG, "  std::array<mpz_class, N * 2> res{};\n  for (size_t i = 0; i < N; i++) {\n    res[2 * i] = poly[i];\n  }", "  std::array<mpz_class, N * 2> res;\n  for (size_t i = 0; i < 2 * N; i++) {\n    res[i] = (i & 1) ? mpz_class(0) : poly[i / 2];\n  }"))

# P04, P05
EN, DE = "encoding.hpp", "decoding.hpp"
v("cp full room", "bad", "P04", (EN, "return bit_idx < slen;", "return bit_idx <= slen;"), (EN, "if (bit_idx + 8 + k >= slen) {\n        bit_idx = slen;", "if (bit_idx + 8 + k >= slen) {\n        bit_idx = slen + 1;"), (EN, "max_sbytelen * (bit_idx >= slen)", "max_sbytelen * (bit_idx > slen)"))
v("cp k byte", "bad", "P04", (EN, "const size_t k = std::abs(poly_s[coeff_idx]) >> 7;", "const uint8_t k = std::abs(poly_s[coeff_idx]) >> 7;"))
v("cp abs 32", "bad", "P04", (EN, "const int64_t coeff = poly_s[coeff_idx];", "const int32_t coeff = poly_s[coeff_idx];"))
v("cp k 16", "bad", "P04", (EN, "const size_t k = static_cast<size_t>(std::abs(coeff) >> 7);", "const size_t k = static_cast<uint16_t>(std::abs(coeff) >> 7);"))
v("cp no check", "bad", "P04", (EN, "if (bit_idx + 8 + k >= slen) {", "if (bit_idx + 8 >= slen) {"))
v("cp copy one more", "bad", "P04", (EN, "sbytelen - (1 + 40));", "sbytelen - 40);"))
v("cp copy header", "bad", "P04", (EN, "std::memcpy(sig + (1 + 40), sig_buf, sbytelen - (1 + 40));", "std::memcpy(sig + 40, sig_buf, sbytelen - (1 + 40));"))
v("cp xor", "bad", "P04", (EN, "sig_buf[bit_idx >> 3] |= 1 << (7 - (bit_idx & 7ul));", "sig_buf[bit_idx >> 3] = 1 << (7 - (bit_idx & 7ul));"))
v("cp k off", "ok", "P04", (EN, "if (bit_idx + 8 + k >= slen) {", "if (bit_idx + 9 + k >= slen) {"))
v("dc k byte", "bad", "P04", (DE, "      size_t k = 0;\n      for (; bit_idx < slen;) {", "      uint8_t k = 0;\n      for (; bit_idx < slen;) {"))
v("dc one byte unary", "bad", "P04", (DE, "        if (v < ebits) {\n          break;\n        }", "        if (k < 24) {\n          break;\n        }"))
v("dc no min", "ok", "P05", (DE, "v = std::min<size_t>(std::countl_zero(t), ebits);", "v = std::countl_zero(t);"))
v("dc zero", "bad", "P04", (DE, "failed |= (coeff == 0) && (sign_bit == 1);", "failed |= (coeff == 0) && (sign_bit == 0);"))
v("dc negative zero", "bad", "P05", (DE, "failed |= (coeff == 0) && (sign_bit == 1);", "failed |= (coeff < 0) && (sign_bit == 0);"))
v("dc negative zero late", "bad", "P05", (DE, "failed |= (coeff == 0) && (sign_bit == 1);", "failed |= (coeff == 0) && (sign_bit == 1) && (coeff_idx + 1 < N);"))
v("dc full room", "bad", "P04", (DE, "failed |= (bit_idx >= slen) | (coeff_idx < N);", "failed |= (bit_idx > slen) | (coeff_idx < N);"))
v("dc missing coefficients", "bad", "P05", (DE, "failed |= (bit_idx >= slen) | (coeff_idx < N);", "failed |= (bit_idx >= slen);"))
v("dc trailing last byte", "bad", "P05", (DE, "      if (ebits == 8) [[likely]] {\n        const auto t = extract_8_contiguous_bits(sig, bit_idx);\n        v = std::countl_zero(t);\n      } else {\n        const auto t = extract_rem_contiguous_bits_in_byte(sig, bit_idx);\n        v = std::countl_zero(t);", "      if (ebits == 8) [[likely]] {\n        const auto t = extract_8_contiguous_bits(sig, bit_idx);\n        v = std::countl_zero(t);\n      } else {\n        v = ebits;"))
v("dc trailing first", "bad", "P05", (DE, "      failed |= (v < ebits);", "      failed = (v < ebits);"))
v("dc trailing seven", "bad", "P05", (DE, "      failed |= (v < ebits);", "      failed |= (v + 1 < ebits);"))
v("dc no wipe", "bad", "P05", (DE, "std::memset(poly_s, 0, sizeof(int32_t) * N * failed);\n  return !failed;\n}\n\n// Given a byte encoded ( and", "return !failed;\n}\n\n// Given a byte encoded ( and"))
v("dc wipe half", "bad", "P05", (DE, "std::memset(poly_s, 0, sizeof(int32_t) * N * failed);\n  return !failed;\n}\n\n// Given a byte encoded ( and", "std::memset(poly_s, 0, sizeof(int32_t) * coeff_idx / 2 * failed);\n  return !failed;\n}\n\n// Given a byte encoded ( and"))
v("dc nine left", "ok", "P04 P05", (DE, "(coeff_idx < N) && (bit_idx + 8 < slen)", "(coeff_idx < N) && (bit_idx + 9 <= slen)"))
v("dc no break", "ok", "P04 P05", (DE, "    if (failed) {\n      break;\n    }\n\n    // seems", "    // seems"))
v("cp no zeros", "ok", "P04", (EN, "        sig_buf[byte_idx] |= 0 << (7 - from_bit);", "        (void)byte_idx; (void)from_bit;"))
v("cp sign shift", "ok", "P04", (EN, "((poly_s[coeff_idx] < 0) * 1) << (7 - from_bit)", "(static_cast<uint32_t>(poly_s[coeff_idx]) >> 31) << (7 - from_bit)"))
v("cp early return", "ok", "P04", (EN, "        bit_idx = slen;\n        break;", "        std::memset(sig + 41, 0, sbytelen - 41);\n        return false;"))
v("cp direct", "ok", "P04", (EN, "  uint8_t sig_buf[max_sbytelen]{};\n", "  uint8_t* const sig_buf = sig + 41;\n  std::memset(sig_buf, 0, sbytelen - 41);\n"),
  (EN, "  std::memset(sig_buf, 0, max_sbytelen * (bit_idx >= slen));\n  std::memcpy(sig + (1 + 40), sig_buf, sbytelen - (1 + 40));\n", "  if (bit_idx >= slen) std::memset(sig_buf, 0, sbytelen - 41);\n"))
v("cp lambda", "ok", "P04", (EN, "  size_t bit_idx = 0;\n  size_t coeff_idx = 0;\n\n  while (coeff_idx < N) {\n    // stop", "  size_t bit_idx = 0;\n  size_t coeff_idx = 0;\n  auto put = [&](uint32_t b) { sig_buf[bit_idx / 8] |= (b & 1) << (7 - bit_idx % 8); bit_idx++; };\n\n  while (coeff_idx < N) {\n    // stop"),
  (EN, "      const int32_t coeff = std::abs(poly_s[coeff_idx]);\n      for (size_t i = bit_idx; i < bit_idx + 7; i++) {\n        const size_t byte_idx = i >> 3;\n        const size_t from_bit = i & 7ul;\n\n        const uint8_t bit = (coeff >> (6 - (i - bit_idx))) & 0b1;\n        sig_buf[byte_idx] |= bit << (7 - from_bit);\n      }\n\n      bit_idx += 7;\n", "      const uint32_t coeff = std::abs(poly_s[coeff_idx]) % 128;\n      for (int b = 6; b >= 0; b--) put(coeff >> b);\n"))
v("cp accumulator", "ok", "P04", (EN, "      const int32_t coeff = std::abs(poly_s[coeff_idx]);\n      for (size_t i = bit_idx; i < bit_idx + 7; i++) {\n        const size_t byte_idx = i >> 3;\n        const size_t from_bit = i & 7ul;\n\n        const uint8_t bit = (coeff >> (6 - (i - bit_idx))) & 0b1;\n        sig_buf[byte_idx] |= bit << (7 - from_bit);\n      }\n\n      bit_idx += 7;\n", "      const uint32_t low = static_cast<uint32_t>(std::abs(poly_s[coeff_idx])) & 127u;\n      const uint32_t w = low << (9 - (bit_idx & 7));\n      sig_buf[bit_idx >> 3] |= static_cast<uint8_t>(w >> 8);\n      sig_buf[(bit_idx >> 3) + 1] |= static_cast<uint8_t>(w);\n      bit_idx += 7;\n"))
_bits = "      size_t k = 0;\n      while (bit_idx < slen && !((sig[bit_idx >> 3] >> (7 - (bit_idx & 7))) & 1)) {\n        k++;\n        bit_idx++;\n      }\n"
v("dc bit by bit", "ok", "P04 P05", (DE, "      size_t k = 0;\n      for (; bit_idx < slen;) {\n        const auto ebits = std::min(8ul, slen - bit_idx);\n\n        size_t v = 0;\n        if (ebits < 8) {\n          const auto t = extract_rem_contiguous_bits_in_byte(sig, bit_idx);\n          v = std::min<size_t>(std::countl_zero(t), ebits);\n        } else {\n          const auto t = extract_8_contiguous_bits(sig, bit_idx);\n          v = std::countl_zero(t);\n        }\n        k += v;\n        bit_idx += v;\n\n        if (v < ebits) {\n          break;\n        }\n      }\n", _bits))
v("dc trailing bytes", "ok", "P04 P05", (DE, "    for (; bit_idx < slen;) {\n      const size_t ebits = std::min(8ul, slen - bit_idx);\n\n      size_t v = 0;\n      if (ebits == 8) [[likely]] {\n        const auto t = extract_8_contiguous_bits(sig, bit_idx);\n        v = std::countl_zero(t);\n      } else {\n        const auto t = extract_rem_contiguous_bits_in_byte(sig, bit_idx);\n        v = std::countl_zero(t);\n      }\n\n      bit_idx += ebits;\n      failed |= (v < ebits);\n    }", "    uint8_t rest = static_cast<uint8_t>(sig[bit_idx >> 3] << (bit_idx & 7));\n    for (size_t i = (bit_idx >> 3) + 1; i < sbytelen; i++) {\n      rest |= sig[i];\n    }\n    failed |= rest != 0;"))
v("dc negate", "ok", "P04 P05", (DE, "coeff = sign_bit == 1 ? -coeff : coeff;", "coeff = (coeff ^ -static_cast<int32_t>(sign_bit)) + sign_bit;"))
v("dc direct fail", "ok", "P04 P05", (DE, "    failed |= (coeff == 0) && (sign_bit == 1);\n    if (failed) {\n      break;\n    }", "    if (sign_bit && !coeff) {\n      std::fill_n(poly_s, N, 0);\n      return false;\n    }"))

# P14, P20
KG, FA = "keygen.hpp", "falcon.hpp"
_enc = "    if (!is_encodable<N>(f, fg_bound) || !is_encodable<N>(g, fg_bound)) {\n      continue;\n    }\n"
_inv = "    if (!is_poly_invertible<log2<N>()>(f)) {\n      continue;\n    }\n"
v("kg g unchecked", "bad", "P14", (NG, "if (!is_encodable<N>(f, fg_bound) || !is_encodable<N>(g, fg_bound)) {", "if (!is_encodable<N>(f, fg_bound)) {"))
v("kg and", "bad", "P14", (NG, "if (!is_encodable<N>(f, fg_bound) || !is_encodable<N>(g, fg_bound)) {", "if (!is_encodable<N>(f, fg_bound) && !is_encodable<N>(g, fg_bound)) {"))
v("kg bound 1024", "bad", "P14", (NG, "fg_bound = (N == 512) ? 31 : 15;", "fg_bound = 31;"))
v("kg bound 32", "bad", "P14", (NG, "(poly[i] >= -bound) && (poly[i] <= bound)", "(poly[i] >= -bound - 1) && (poly[i] <= bound)"))
v("kg last unchecked", "bad", "P14", (NG, "  for (size_t i = 0; i < N; i++) {\n    flg &= (poly[i] >= -bound)", "  for (size_t i = 0; i + 1 < N; i++) {\n    flg &= (poly[i] >= -bound)"))
v("kg flag lost", "bad", "P14", (NG, "flg &= (poly[i] >= -bound)", "flg = (poly[i] >= -bound)"))
v("kg F unchecked", "bad", "P14", (NG, "    if (!is_encodable<N>(F, F_bound)) {\n      continue;\n    }\n    break;", "    break;"))
v("kg inv g", "bad", "P14", (NG, _inv, _inv.replace(">(f)", ">(g)")))
v("kg inv none", "bad", "P14", (NG, _inv, ""))
v("kg inv any", "bad", "P14", (NG, "flg &= tmp[i].v != 0;", "flg |= tmp[i].v != 0;"))
v("kg inv first", "bad", "P14", (NG, "    flg &= tmp[i].v != 0;", "    flg &= (tmp[i].v != 0) | (i == 0);"))
v("kg norm bound", "bad", "P14", (NG, "GS_NORM_THRESHOLD = 1.17 * 1.17 * static_cast<double>(ff::Q)", "GS_NORM_THRESHOLD = 1.17 * static_cast<double>(ff::Q)"))
v("kg norm flip", "bad", "P14", (NG, "if (gsnorm > GS_NORM_THRESHOLD) {", "if (gsnorm < GS_NORM_THRESHOLD) {"))
v("kg norm none", "bad", "P14", (NG, "if (gsnorm > GS_NORM_THRESHOLD) {", "if (gsnorm < 0) {"))
v("kg solution ignored", "bad", "P14", (NG, "    const auto ret = ntru_solve(f_, g_);\n    if (!ret.second.is_solution()) {\n      continue;\n    }\n", "    const auto ret = ntru_solve(f_, g_);\n"))
v("kg solve swapped", "bad", "P14", (NG, "ntru_solve(f_, g_);\n    if", "ntru_solve(g_, f_);\n    if"))
v("kg F is G", "bad", "P14", (NG, "F[i] = static_cast<int32_t>(ret.first.first[i].get_si());", "F[i] = static_cast<int32_t>(ret.first.second[i].get_si());"))
v("kg keep g", "bad", "P14", (NG, "    gen_poly<log2<N>()>(f, rng);\n    gen_poly<log2<N>()>(g, rng);\n\n", "    gen_poly<log2<N>()>(f, rng);\n    std::memcpy(g, f, 4 * N);\n    gen_poly<log2<N>()>(g, rng);\n\n"), (NG, "flg &= tmp[i].v != 0;", "flg &= tmp[i].v > 1;"))
v("kg norm min", "bad", "P14", (NG, "return std::max(sq_norm_fg, sq_norm_FG);", "return std::min(sq_norm_fg, sq_norm_FG);"))
v("kg norm gt", "bad", "P14", (NG, "polynomial::div<LOG2N>(g_adj, fxf_adj_gxg_adj, gt);", "polynomial::div<LOG2N>(f_adj, fxf_adj_gxg_adj, gt);"))
v("kg norm qxq", "bad", "P14", (NG, "constexpr double qxq = q * q;", "constexpr double qxq = q;"))
v("kg norm over N", "bad", "P14", (NG, "return std::real(res) / N_;", "return std::real(res);"))
v("kg sigma", "bad", "P14", (NG, "constexpr double σ = 1.43300980528773;", "constexpr double σ = 1.17;"))
v("kg draws", "bad", "P14", (NG, "constexpr size_t k = 4096 / N;", "constexpr size_t k = 8;"))
v("kg draw once", "bad", "P14", (NG, "      res += samplerz::samplerz(0., σ, σ_min, rng);\n    }\n", "      if (j == 0) res += samplerz::samplerz(0., σ, σ_min, rng);\n      else res += res / static_cast<int32_t>(j);\n    }\n"))
v("kg inv alias", "ok", "P14", (NG, "    const bool flg = poly[i] < 0;\n    tmp[i].v = static_cast<uint16_t>(flg * q + poly[i]);", "    int32_t t = poly[i];\n    if (t < 0) t += q;\n    tmp[i].v = static_cast<uint16_t>(t);"))
v("kg inv early", "ok", "P14", (NG, "  bool flg = true;\n  for (size_t i = 0; i < N; i++) {\n    flg &= tmp[i].v != 0;\n  }\n\n  return flg;", "  for (const auto& x : tmp) {\n    if (x == ff::ff_t{}) {\n      return false;\n    }\n  }\n  return true;"))
v("kg enc early", "ok", "P14", (NG, "  bool flg = true;\n  for (size_t i = 0; i < N; i++) {\n    flg &= (poly[i] >= -bound) && (poly[i] <= bound);\n  }\n\n  return flg;", "  for (size_t i = 0; i < N; i++) {\n    if (std::abs(poly[i]) > bound) {\n      return false;\n    }\n  }\n  return true;"))
v("kg enc unsigned", "ok", "P14", (NG, "flg &= (poly[i] >= -bound) && (poly[i] <= bound);", "flg &= static_cast<uint32_t>(poly[i] + bound) <= static_cast<uint32_t>(2 * bound);"))
v("kg nested", "ok", "P14", (NG, _inv + "\n    const double gsnorm = gram_schmidt_norm<log2<N>()>(f, g);\n    if (gsnorm > GS_NORM_THRESHOLD) {\n      continue;\n    }\n", "    if (!is_poly_invertible<log2<N>()>(f) || !(gram_schmidt_norm<log2<N>()>(f, g) <= GS_NORM_THRESHOLD)) {\n      continue;\n    }\n"))
v("kg order", "ok", "P14", (NG, _enc, ""), (NG, "    std::array<mpz_class, N> f_;\n    std::array<mpz_class, N> g_;\n", _enc + "    std::array<mpz_class, N> f_;\n    std::array<mpz_class, N> g_;\n"), (NG, _inv, _enc + _inv))
v("kg helper", "ok", "P14", (NG, "// Given a modulus q ( = 12289 ), this routine generates four", "template<const size_t N>\nstatic inline bool\ngood_pair(const int32_t* const f, const int32_t* const g, const int32_t b)\n{\n  if (!is_encodable<N>(f, b)) return false;\n  if (!is_encodable<N>(g, b)) return false;\n  if (!is_poly_invertible<log2<N>()>(f)) return false;\n  return gram_schmidt_norm<log2<N>()>(f, g) <= GS_NORM_THRESHOLD;\n}\n\n// Given a modulus q ( = 12289 ), this routine generates four"),
  (NG, _enc + "\n" + _inv + "\n    const double gsnorm = gram_schmidt_norm<log2<N>()>(f, g);\n    if (gsnorm > GS_NORM_THRESHOLD) {\n      continue;\n    }\n", "    if (!good_pair<N>(f, g, fg_bound)) continue;\n"))
v("kg do while", "ok", "P14", (NG, "    if (!is_encodable<N>(F, F_bound)) {\n      continue;\n    }\n    break;", "    if (is_encodable<N>(F, F_bound)) {\n      return;\n    }"))
v("kg norm fmax", "ok", "P14", (NG, "return std::max(sq_norm_fg, sq_norm_FG);", "return std::fmax(sq_norm_FG, sq_norm_fg);"))
v("kg norm std", "ok", "P14", (NG, "  fft::cmplx res{};\n\n  for (size_t i = 0; i < N; i++) {\n    res += poly[i] * std::conj(poly[i]);\n  }\n\n  return std::real(res) / N_;", "  double res = 0.;\n\n  for (size_t i = 0; i < N; i++) {\n    res += std::norm(poly[i]);\n  }\n\n  return res / N_;"))
v("kp wrong div", "bad", "P20", (KG, "polynomial::div<log2<N>()>(g_, f_, h);", "polynomial::div<log2<N>()>(f_, g_, h);"))
v("kp neg", "bad", "P20", (KG, "g_[i].v = static_cast<uint16_t>((g[i] < 0) * q + g[i]);", "g_[i].v = static_cast<uint16_t>((g[i] < -1) * q + g[i]);"))
v("kp f for g", "bad", "P20", (KG, "ntt::ntt<log2<N>()>(g_);\n  polynomial::div", "polynomial::div"))
v("kp skey order", "bad", "P20", (FA, "encoding::encode_skey<N>(f, g, F, skey);", "encoding::encode_skey<N>(g, f, F, skey);"))
v("kp skey G", "bad", "P20", (FA, "encoding::encode_skey<N>(f, g, F, skey);", "encoding::encode_skey<N>(f, g, G, skey);"))
v("kp B sign", "bad", "P20", (KG, "B[3 * N + i] = fft::cmplx{ -static_cast<double>(F[i]) };", "B[3 * N + i] = fft::cmplx{ static_cast<double>(F[i]) };"))
v("kp sigma", "bad", "P20", (KG, "normalize_tree<N, 0, log2<N>()>(T, σ);", "normalize_tree<N, 0, log2<N>()>(T, 165.736617183);"))
v("kp h of f f", "bad", "P20", (KG, "compute_public_key<N>(f, g, h);", "compute_public_key<N>(f, G, h);"))
v("kp inv mul", "ok", "P20", (KG, "  polynomial::div<log2<N>()>(g_, f_, h);", "  for (size_t i = 0; i < N; i++) {\n    f_[i] = f_[i].inv();\n  }\n  polynomial::mul<log2<N>()>(g_, f_, h);"))
v("kp ternary", "ok", "P20", (KG, "f_[i].v = static_cast<uint16_t>((f[i] < 0) * q + f[i]);", "f_[i].v = static_cast<uint16_t>(f[i] < 0 ? q + f[i] : f[i]);"))
v("kp order", "ok", "P20", (FA, "  encoding::encode_pkey<N>(h, pkey);\n  encoding::encode_skey<N>(f, g, F, skey);", "  encoding::encode_skey<N>(f, g, F, skey);\n  encoding::encode_pkey<N>(h, pkey);"))
v("kp reuse B", "ok", "P20", (KG, "  compute_public_key<N>(f, g, h);\n}", "  compute_public_key<N>(f, g, h);\n  for (auto& x : gram_matrix) x = {};\n}"))

# ---------------------------------------------------------------- P21
v("ef static scratch sign", "bad", "P21", (FA, "  fft::cmplx B[2 * 2 * N];\n  fft::cmplx T[", "  static fft::cmplx B[2 * 2 * N];\n  static fft::cmplx T["))
v("ef static scratch verify", "bad", "P21", (FA, "  ff::ff_t h[N];\n\n  const size_t decoded", "  static ff::ff_t h[N];\n\n  const size_t decoded"))
v("ef static scratch fft", "bad", "P21", (KG, "  fft::cmplx B_adj[N * 2 * 2];", "  static fft::cmplx B_adj[N * 2 * 2];"))
v("ef thread local", "bad", "P21", (KG, "  fft::cmplx B_adj[N * 2 * 2];", "  thread_local fft::cmplx B_adj[N * 2 * 2];"))
v("ef static rng", "bad", "P21", (FA, "  prng::prng_t rng;\n\n  const bool decoded", "  static prng::prng_t rng;\n\n  const bool decoded"))
v("ef static sigma", "bad", "P21", (KG, "  fft::cmplx gram_matrix[2 * 2 * N];\n  compute_gram_matrix<N>(B, gram_matrix);\n", "  fft::cmplx gram_matrix[2 * 2 * N];\n  static const double dev = σ;\n  compute_gram_matrix<N>(B, gram_matrix);\n"), (KG, "normalize_tree<N, 0, log2<N>()>(T, σ);", "normalize_tree<N, 0, log2<N>()>(T, dev);"))
v("ef counter", "bad", "P21", (FA, "  prng::prng_t rng;\n\n  const bool decoded", "  prng::prng_t rng;\n  static size_t calls = 0;\n  calls++;\n\n  const bool decoded"))
v("ef cache", "bad", "P21", (FA, "  const size_t decoded = decoding::decode_pkey<N>(pkey, h);", "  static const bool decoded = decoding::decode_pkey<N>(pkey, h);"))
v("ef verify writes sig", "bad", "P21", (FA, "  constexpr int32_t β2_values[]{ 34034726, 70265242 };\n  constexpr int32_t β2 = β2_values[N == 1024];\n\n  return", "  constexpr int32_t β2_values[]{ 34034726, 70265242 };\n  constexpr int32_t β2 = β2_values[N == 1024];\n  if (mlen == 0) {\n    sig[0] &= 0x3f;\n  }\n\n  return"))
v("ef sign wipes key", "bad", "P21", (FA, "  sign<N>(B, T, msg, mlen, sig, rng);\n\n  return true;", "  sign<N>(B, T, msg, mlen, sig, rng);\n  std::memset(const_cast<uint8_t*>(skey), 0, 1);\n\n  return true;"))
v("ef rand", "bad", "P21", (NG, "  while (1) {", "  std::srand(1);\n  while (1) {"))
v("ef static table", "ok", "P21", (KG, "  fft::cmplx B_adj[N * 2 * 2];\n  fft::cmplx tmp[N];\n", "  fft::cmplx B_adj[N * 2 * 2];\n  fft::cmplx tmp[N];\n  static const auto roots = [] {\n    std::array<double, N> r{};\n    for (size_t i = 0; i < N; i++) {\n      r[i] = std::sqrt(static_cast<double>(i));\n    }\n    return r;\n  }();\n  tmp[0] = roots[1];\n"))
v("ef static constexpr", "ok", "P21", (FA, "  constexpr int32_t β2_values[]{ 34034726, 70265242 };\n  constexpr int32_t β2 = β2_values[N == 1024];", "  static const int32_t β2_values[]{ 34034726, 70265242 };\n  constexpr int32_t β2 = N == 1024 ? 70265242 : 34034726;\n  if (β2_values[0] == 0) {\n    return false;\n  }"))
v("ef lambda", "ok", "P21", (FA, "  const size_t decoded = decoding::decode_pkey<N>(pkey, h);", "  ff::ff_t* const out = h;\n  auto dec = [&](const uint8_t* k) { return decoding::decode_pkey<N>(k, out); };\n  const size_t decoded = dec(pkey);"))
v("ef vector", "ok", "P21", (FA, "  fft::cmplx B[2 * 2 * N];\n  fft::cmplx T[(1ul << log2<N>()) * (log2<N>() + 1)];\n  prng::prng_t rng;\n\n  const bool", "  std::vector<fft::cmplx> Bv(4 * N);\n  std::vector<fft::cmplx> Tv((1ul << log2<N>()) * (log2<N>() + 1));\n  fft::cmplx* const B = Bv.data();\n  fft::cmplx* const T = Tv.data();\n  prng::prng_t rng;\n\n  const bool"), (FA, "#pragma once\n", "#pragma once\n#include <vector>\n"))
v("ef struct scratch", "ok", "P21", (FA, "  fft::cmplx B[2 * 2 * N];\n  fft::cmplx T[(1ul << log2<N>()) * (log2<N>() + 1)];\n  prng::prng_t rng;\n\n  const bool", "  struct {\n    const uint8_t* key;\n    fft::cmplx B_[2 * 2 * N];\n    fft::cmplx T_[(1ul << log2<N>()) * (log2<N>() + 1)];\n  } work;\n  work.key = skey;\n  fft::cmplx* const B = work.B_;\n  fft::cmplx* const T = work.T_;\n  prng::prng_t rng;\n\n  const bool"))
v("ef static table passed", "ok", "P21", (KG, "  fft::cmplx B_adj[N * 2 * 2];\n  fft::cmplx tmp[N];\n", "  fft::cmplx B_adj[N * 2 * 2];\n  fft::cmplx tmp[N];\n  static const auto one = [] {\n    std::array<fft::cmplx, N> r{};\n    for (auto& x : r) {\n      x = fft::cmplx{ 1. };\n    }\n    return r;\n  }();\n  polynomial::mul<log2<N>()>(one.data(), B, tmp);\n"))
v("ef static table written later", "bad", "P21", (KG, "  fft::cmplx B_adj[N * 2 * 2];\n  fft::cmplx tmp[N];\n", "  fft::cmplx B_adj[N * 2 * 2];\n  fft::cmplx tmp[N];\n  static auto one = [] {\n    std::array<fft::cmplx, N> r{};\n    for (auto& x : r) {\n      x = fft::cmplx{ 1. };\n    }\n    return r;\n  }();\n  polynomial::mul<log2<N>()>(tmp, B, one.data());\n"))

# ---------------------------------------------------------------- P22
v("wi verify any N", "ok", "P22", (FA, "       uint8_t* const __restrict sig)\n  requires((N == 512) || (N == 1024))\n{\n  ff::ff_t h[N];", "       uint8_t* const __restrict sig)\n{\n  ff::ff_t h[N];"))
v("wi keygen 2048", "ok", "P22", (FA, "keygen(uint8_t* const __restrict pkey, uint8_t* const __restrict skey)\n  requires((N == 512) || (N == 1024))", "keygen(uint8_t* const __restrict pkey, uint8_t* const __restrict skey)\n  requires((N >= 512) && ((N & (N - 1)) == 0))"))
v("wi sign sizes", "bad", "P22", (SG, "requires(((N == 512) && (β2 == 34034726) && (slen == 666)) ||\n           ((N == 1024) && (β2 == 70265242) && (slen == 1280)))", "requires(((N == 512) || (N == 1024)) && ((slen == 666) || (slen == 1280)))"))
v("wi compress sizes", "bad", "P22", (EN, "requires(((N == 512) && (sbytelen == 666)) ||\n           ((N == 1024) && (sbytelen == 1280)))", "requires(((N == 512) || (N == 1024)) && (sbytelen >= 666))"))
v("wi level", "ok", "P22", ("falcon_tree.hpp", "(AT_LEVEL < T_HEIGHT) && (N == (1ul << (T_HEIGHT - AT_LEVEL))))", "(AT_LEVEL < T_HEIGHT))"))
v("wi fft 11", "bad", "P22", ("fft.hpp", "requires((LOG2N > 0) && (LOG2N <= 10))", "requires((LOG2N > 0) && (LOG2N <= 12))"))
v("wi siglen", "bad", "P22", ("utils.hpp", "    return 1280;", "    return 1281;"))
v("wi not inline", "bad", "P22", ("common.hpp", "inline void\nto_byte_array", "void\nto_byte_array"))
v("wi global", "bad", "P22", ("fft.hpp", "namespace fft {\n", "namespace fft {\nint table_version = 1;\n"))
v("wi concept", "ok", "P22 P21", (FA, "namespace falcon {\n", "namespace falcon {\n\ntemplate<size_t N>\nconcept param_set = N == 512 || N == 1024;\n"), (FA, "@all   requires((N == 512) || (N == 1024))", "  requires param_set<N>"))
v("wi static_assert", "ok", "P22", (FA, "       uint8_t* const __restrict sig)\n  requires((N == 512) || (N == 1024))\n{\n  ff::ff_t h[N];", "       uint8_t* const __restrict sig)\n{\n  static_assert(N == 512 || N == 1024);\n  ff::ff_t h[N];"))
v("wi hash args", "ok", "P22", (HH, "void\nhash_to_point(", "void\nhash_to_point(int, "), )
v("wi inline global", "ok", "P22", ("fft.hpp", "namespace fft {\n", "namespace fft {\ninline constexpr int table_version = 1;\n"))
v("wi siglen any N", "bad", "P22", ("utils.hpp", "compute_sig_len()\n  requires((N == 512) || (N == 1024))", "compute_sig_len()"))

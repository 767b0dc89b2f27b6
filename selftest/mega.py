"""Rewrites of many functions at once that keep the behaviour: every check has to be quiet on them.
usage: mega.py A|B OUTDIR [file,file...]   lays the rewritten headers out in OUTDIR/include"""
import os
import shutil
import sys

E = {"A": [], "B": [], "C": [], "D": []}


def a(fn, old, new):
    E["A"].append((fn + ".hpp", old, new))


def b(fn, old, new):
    E["B"].append((fn + ".hpp", old, new))


def cc(fn, old, new):
    E["C"].append((fn + ".hpp", old, new))


def dd(fn, old, new):
    E["D"].append((fn + ".hpp", old, new))


# ------------------------------------------------------------------ A
a("encoding", """template<const size_t N>
static inline void
encode_pkey(""", """static inline void
pack_four(const ff::ff_t* const h, uint8_t* const out)
{
  const uint64_t w = (static_cast<uint64_t>(h[0].v) << 0) | (static_cast<uint64_t>(h[1].v) << 14) |
                     (static_cast<uint64_t>(h[2].v) << 28) | (static_cast<uint64_t>(h[3].v) << 42);
  for (size_t i = 0; i < 7; i++) {
    out[i] = static_cast<uint8_t>(w >> (8 * i));
  }
}

template<const size_t N>
static inline void
encode_pkey(""")
a("encoding", """    pkey[pkoff + 0] = static_cast<uint8_t>(h[hoff + 0].v);
    pkey[pkoff + 1] = (static_cast<uint8_t>(h[hoff + 1].v & mask2) << 6) |
                      (static_cast<uint8_t>(h[hoff + 0].v >> 8) << 0);
    pkey[pkoff + 2] = static_cast<uint8_t>(h[hoff + 1].v >> 2);
    pkey[pkoff + 3] = (static_cast<uint8_t>(h[hoff + 2].v & mask4) << 4) |
                      (static_cast<uint8_t>(h[hoff + 1].v >> 10) << 0);
    pkey[pkoff + 4] = static_cast<uint8_t>(h[hoff + 2].v >> 4);
    pkey[pkoff + 5] = (static_cast<uint8_t>(h[hoff + 3].v & mask6) << 2) |
                      (static_cast<uint8_t>(h[hoff + 2].v >> 12) << 0);
    pkey[pkoff + 6] = static_cast<uint8_t>(h[hoff + 3].v >> 6);
""", """    pack_four(h + hoff, pkey + pkoff);
""")
a("encoding", """  constexpr uint16_t mask6 = 0x3f;
  constexpr uint16_t mask4 = 0x0f;
  constexpr uint16_t mask2 = 0x03;

  pkey[0]""", "  pkey[0]")
a("encoding", """template<const size_t N>
static inline void
encode_skey(""", """static inline uint8_t
low_bits(const int32_t v, const int32_t wrap_at)
{
  return static_cast<uint8_t>(v < 0 ? v + wrap_at : v);
}

template<const size_t N>
static inline void
encode_skey(""")
for c in "fg":
    for k in "0123":
        a("encoding", "      const bool flg%s = %s[%soff + %s] < 0;\n" % (k, c, c, k), "")
        a("encoding", "const uint8_t %s%s = static_cast<uint8_t>(flg%s * wrap_at + %s[%soff + %s]);" % (c, k, k, c, c, k), "const uint8_t %s%s = low_bits(%s[%soff + %s], wrap_at);" % (c, k, c, c, k))
a("encoding", """  for (size_t Foff = 0; Foff < N; Foff++, skoff++) {
    skey[skoff] = static_cast<uint8_t>(F[Foff]);
  }""", """  uint8_t* const tail = skey + skoff;
  size_t left = N;
  while (left > 0) {
    left -= 1;
    tail[left] = static_cast<uint8_t>(F[left]);
  }""")
a("encoding", """  while (coeff_idx < N) {
    // stop""", """  for (; coeff_idx < N; coeff_idx++) {
    // stop""")
a("encoding", "    coeff_idx += 1;\n", "")
a("encoding", """      for (size_t i = bit_idx; i < bit_idx + k; i++) {
        const size_t byte_idx = i >> 3;
        const size_t from_bit = i & 7ul;

        sig_buf[byte_idx] |= 0 << (7 - from_bit);
      }

      bit_idx += k;""", "      bit_idx += k;")
a("decoding", """  bool failed = false;
  for (size_t i = 0; i < N; i++) {
    failed |= h[i].v >= ff::Q;
  }

  if (failed) [[unlikely]] {
    std::fill_n(h, N, 0);
    return false;
  }

  return true;""", """  for (size_t i = 0; i < N; i++) {
    if (h[i].v >= ff::Q) {
      std::fill_n(h, N, 0);
      return false;
    }
  }

  return true;""")
a("decoding", """template<const size_t N>
static inline bool
decode_skey(""", """static inline int32_t
sign_extend(const int32_t v, const int32_t wrap_at)
{
  return v >= wrap_at / 2 ? v - wrap_at : v;
}

template<const size_t N>
static inline bool
decode_skey(""")
for c in "fg":
    for k in "0123":
        a("decoding", "%s[%soff + %s] = %s%s - (%s%s > fg_max) * fg_wrap_at;" % (c, c, k, c, k, c, k), "%s[%soff + %s] = sign_extend(%s%s, fg_wrap_at);" % (c, c, k, c, k))
a("decoding", "    constexpr int32_t fg_max = (fg_wrap_at / 2) - 1;\n", "")
a("decoding", """  bool failed = false;
  for (size_t i = 0; i < N; i++) {
    failed |= (f[i] == fg_min) | (g[i] == fg_min) | (F[i] == F_min);
  }
""", """  bool failed = false;
  for (size_t i = 0; i < N && !failed; i++) {
    failed = (f[i] == fg_min) || (g[i] == fg_min) || (F[i] == F_min);
  }
""")
a("decoding", """    coeff = sign_bit == 1 ? -coeff : coeff;

    // enforce unique encoding of 0
    failed |= (coeff == 0) && (sign_bit == 1);
    if (failed) {
      break;
    }
""", """    if (sign_bit == 1) {
      if (coeff == 0) {
        failed = true;
        break;
      }
      coeff = -coeff;
    }
""")
a("hashing", """  while (coeff_idx < n) {
    hasher.read(buf, sizeof(buf));

    for (size_t off = 0; (off < sizeof(buf)) && (coeff_idx < n); off += 2) {
      const uint16_t t = (static_cast<uint16_t>(buf[off + 0]) << 8) |
                         (static_cast<uint16_t>(buf[off + 1]) << 0);
      if (t < kq) {
        poly[coeff_idx] = ff::ff_t{ t };
        coeff_idx++;
      }
    }
  }""", """  for (;;) {
    hasher.read(buf, sizeof(buf));

    for (const uint8_t* p = buf; p != buf + sizeof(buf); p += 2) {
      const uint16_t t = static_cast<uint16_t>(p[0] * 256 + p[1]);
      if (t >= kq) {
        continue;
      }
      poly[coeff_idx++] = ff::ff_t{ static_cast<uint16_t>(t % q) };
      if (coeff_idx == n) {
        return;
      }
    }
  }""")
a("prng", """    for (size_t i = 0; i < sizeof(seed); i++) {
      seed[i] = static_cast<uint8_t>(rd());
    }
""", """    for (auto& byte : seed) {
      byte = static_cast<uint8_t>(rd() & 0xffu);
    }
""")
a("verification", """namespace verification {
""", """namespace verification {

static inline int32_t
centered(const ff::ff_t x)
{
  const int32_t t = x.v;
  return t > ff::Q / 2 ? t - ff::Q : t;
}
""")
a("verification", """  constexpr uint16_t qby2 = ff::Q / 2;
  int32_t normalized_s1[N];

  for (size_t i = 0; i < N; i++) {
    const bool flg = s1[i].v > qby2;
    const auto t0 = static_cast<int32_t>(s1[i].v);
    const auto t1 = static_cast<int32_t>(flg * ff::Q);

    normalized_s1[i] = t0 - t1;
  }
""", "")
a("verification", """  for (size_t i = 0; i < N; i++) {
    sqrd_norm += static_cast<int64_t>(s2[i]) * s2[i];
  }
  for (size_t i = 0; i < N; i++) {
    sqrd_norm += normalized_s1[i] * normalized_s1[i];
  }
""", """  for (size_t i = 0; i < N; i++) {
    const int64_t x = centered(s1[i]);
    const int64_t y = s2[i];
    sqrd_norm += x * x + y * y;
  }
""")
a("verification", """  ntt::ntt<log2<N>()>(c);
  ntt::ntt<log2<N>()>(s2_ntt);
  ntt::ntt<log2<N>()>(h_);
""", """  ntt::ntt<log2<N>()>(h_);
  ntt::ntt<log2<N>()>(s2_ntt);
  ntt::ntt<log2<N>()>(c);
""")
a("verification", """  const size_t decoded = decoding::decode_sig<N>(sig, salt, s2);
  if (!decoded) [[unlikely]] {
    return decoded;
  }
""", """  if (!decoding::decode_sig<N>(sig, salt, s2)) {
    return false;
  }
""")
a("signing", """    // check ∥s∥2 > ⌊β2⌋
    if (sq_norm <= β2_) {
      fft::ifft<log2<N>()>(s1);

      for (size_t i = 0; i < N; i++) {
        s2[i] = static_cast<int32_t>(std::round(s1[i].real()));
      }

      // check if signature has been compressed
      const bool compressed = encoding::compress_sig<N, slen>(s2, sig);
      if (compressed) {
        break;
      }
    }
  }

  sig[0] = header;
  std::memcpy(sig + 1, salt, sizeof(salt));
""", """    if (sq_norm > β2_) {
      continue;
    }

    fft::ifft<log2<N>()>(s1);
    for (size_t i = 0; i < N; i++) {
      s2[i] = static_cast<int32_t>(std::round(std::real(s1[i])));
    }

    if (encoding::compress_sig<N, slen>(s2, sig)) {
      sig[0] = header;
      std::copy_n(salt, sizeof(salt), sig + 1);
      return;
    }
  }
""")
a("signing", """  constexpr fft::cmplx q{ ff::Q };
  for (size_t i = 0; i < N; i++) {
    t0[i] /= q;
    t1[i] = -(t1[i] / q);
  }
""", """  constexpr double q = ff::Q;
  for (auto& t : t0) {
    t = t / q;
  }
  for (auto& t : t1) {
    t = t / -q;
  }
""")
a("ntru_gen", """  bool flg = true;
  for (size_t i = 0; i < N; i++) {
    flg &= tmp[i].v != 0;
  }

  return flg;""", """  return std::all_of(tmp, tmp + N, [](const ff::ff_t& x) { return x != ff::ff_t::zero(); });""")
a("ntru_gen", """    const bool flg = poly[i] < 0;
    tmp[i].v = static_cast<uint16_t>(flg * q + poly[i]);""", """    tmp[i] = ff::ff_t{ static_cast<uint16_t>(poly[i] < 0 ? poly[i] + q : poly[i]) };""")
a("ntru_gen", """  bool flg = true;
  for (size_t i = 0; i < N; i++) {
    flg &= (poly[i] >= -bound) && (poly[i] <= bound);
  }

  return flg;""", """  for (size_t i = 0; i < N; i++) {
    if (poly[i] < -bound || poly[i] > bound) {
      return false;
    }
  }
  return true;""")
a("ntru_gen", """  const nby2poly_t polye_sq = karatsuba::karamul(polye, polye);
  const nby2poly_t polyo_sq = karatsuba::karamul(polyo, polyo);

  nby2poly_t res = polye_sq;
  for (size_t i = 0; i < Nby2 - 1; i++) {
    res[i + 1] = res[i + 1] - polyo_sq[i];
  }
  res[0] = res[0] + polyo_sq[Nby2 - 1];

  return res;""", """  nby2poly_t res = karatsuba::karamul(polye, polye);
  const nby2poly_t polyo_sq = karatsuba::karamul(polyo, polyo);

  res[0] += polyo_sq[Nby2 - 1];
  for (size_t i = 1; i < Nby2; i++) {
    res[i] -= polyo_sq[i - 1];
  }

  return res;""")
a("ntru_gen", """    if (i & 1) {
      res[i] = -poly[i];
    } else {
      res[i] = poly[i];
    }""", """    res[i] = poly[i];
    if (i % 2 == 1) {
      res[i] = -res[i];
    }""")
a("ntru_gen", """    bool atleast_one_nonzero = false;
    for (size_t i = 0; i < N; i++) {
      atleast_one_nonzero |= k_rounded[i] != 0;
    }

    if (!atleast_one_nonzero) {
      break;
    }
""", """    if (std::all_of(k_rounded, k_rounded + N, [](const signed long x) { return x == 0; })) {
      return;
    }
""")
a("ntru_gen", "    if (blen1 < blen0) {\n      break;\n    }\n", "    if (blen0 > blen1) {\n      return;\n    }\n")
a("samplerz", """  uint32_t z0 = 0u;
  for (size_t i = 0; i < 18; i++) {
    z0 = z0 + 1u * (u < RCDT[i]);
  }

  return z0;
}

// Given""" if False else """  std::array<uint8_t, 9> bytes;
  rng.read(bytes.data(), bytes.size());

  const u72::u72_t u = u72::u72_t::from_le_bytes(std::move(bytes));

  uint32_t z0 = 0u;
  for (size_t i = 0; i < 18; i++) {
    z0 = z0 + 1u * (u < RCDT[i]);
  }

  return z0;""", """  std::array<uint8_t, 9> bytes;
  rng.read(bytes.data(), bytes.size());

  return base_sampler(std::move(bytes));""")
a("samplerz", """  int32_t w = 0;
  int64_t i = 64l;
  do {
    i = i - 8l;

    uint8_t t0;
    rng.read(&t0, sizeof(t0));

    w = static_cast<int32_t>(t0) - static_cast<int32_t>((z >> i) & 0xfful);
  } while ((w == 0) && (i > 0l));

  return w < 0;""", """  for (int64_t i = 56; i >= 0; i -= 8) {
    uint8_t t0;
    rng.read(&t0, sizeof(t0));

    const uint8_t zi = static_cast<uint8_t>(z >> i);
    if (t0 != zi) {
      return t0 < zi;
    }
  }

  return 0;""")
a("samplerz", """    const auto t2 = z - r;
    const auto t3 = t2 * t2;
    const auto t4 = t3 * t0;

    const auto t5 = static_cast<double>(z0 * z0);
    const auto t6 = t5 * t1;

    const auto x = t4 - t6;
    const auto t7 = ber_exp(x, ccs, rng);
    if (t7 == 1) {
      return static_cast<int32_t>(z + std::floor(μ));
    }""", """    const double x = (z - r) * (z - r) * t0 - static_cast<double>(z0 * z0) * t1;
    if (ber_exp(x, ccs, rng)) {
      return static_cast<int32_t>(std::floor(μ) + z);
    }""")
a("keygen", """  for (size_t i = 0; i < N; i++) {
    B[i] = fft::cmplx{ static_cast<double>(g[i]) };
    B[N + i] = fft::cmplx{ -static_cast<double>(f[i]) };
    B[2 * N + i] = fft::cmplx{ static_cast<double>(G[i]) };
    B[3 * N + i] = fft::cmplx{ -static_cast<double>(F[i]) };
  }

  fft::fft<log2<N>()>(B);
  fft::fft<log2<N>()>(B + N);
  fft::fft<log2<N>()>(B + 2 * N);
  fft::fft<log2<N>()>(B + 3 * N);
""", """  const auto fill = [](fft::cmplx* const row, const int32_t* const p, const int32_t sgn) {
    for (size_t i = 0; i < N; i++) {
      row[i] = static_cast<double>(sgn * p[i]);
    }
    fft::fft<log2<N>()>(row);
  };
  fill(B, g, 1);
  fill(B + N, f, -1);
  fill(B + 2 * N, G, 1);
  fill(B + 3 * N, F, -1);
""")
a("keygen", """  std::memcpy(B_adj, B, sizeof(B_adj));
  fft::adj_poly<log2<N>()>(B_adj);
  fft::adj_poly<log2<N>()>(B_adj + N);
  fft::adj_poly<log2<N>()>(B_adj + 2 * N);
  fft::adj_poly<log2<N>()>(B_adj + 3 * N);
""", """  for (size_t i = 0; i < 4 * N; i++) {
    B_adj[i] = std::conj(B[i]);
  }
""")
a("falcon_tree", """    std::memcpy(G0, d00, sizeof(d00));
    std::memcpy(G0 + (N / 2), d01, sizeof(d01));
    std::memcpy(G0 + N, d01, sizeof(d01));
    std::memcpy(G0 + N + (N / 2), d00, sizeof(d00));
    fft::adj_poly<log2<N>()>(G0 + N);

    std::memcpy(G1, d10, sizeof(d10));
    std::memcpy(G1 + (N / 2), d11, sizeof(d11));
    std::memcpy(G1 + N, d11, sizeof(d11));
    std::memcpy(G1 + N + (N / 2), d10, sizeof(d10));
    fft::adj_poly<log2<N>()>(G1 + N);
""", """    const auto quasicyclic = [](const fft::cmplx* const x, const fft::cmplx* const y, fft::cmplx* const M) {
      for (size_t i = 0; i < N / 2; i++) {
        M[i] = x[i];
        M[N / 2 + i] = y[i];
        M[N + i] = std::conj(y[i]);
        M[N + N / 2 + i] = std::conj(x[i]);
      }
    };
    quasicyclic(d00, d01, G0);
    quasicyclic(d10, d11, G1);
""")
a("ffsampling", """    polynomial::sub<log2<N>()>(t1, merged_z1, tmp0);
    polynomial::mul<log2<N>()>(tmp0, l, tmp1);
    polynomial::add<log2<N>()>(t0, tmp1, tmp0);
""", """    for (size_t i = 0; i < N; i++) {
      tmp0[i] = t0[i] + l[i] * (t1[i] - merged_z1[i]);
    }
""")
a("ffsampling", "    fft::cmplx tmp1[N];\n", "")
a("falcon", """  const bool decoded = decoding::decode_skey<N>(skey, f, g, F);
  if (!decoded) [[unlikely]] {
    return decoded;
  }
""", """  if (!decoding::decode_skey<N>(skey, f, g, F)) {
    return false;
  }
""")
a("falcon", """  polynomial::mul<log2<N>()>(g_, F_, tmp);
  polynomial::add_to<log2<N>()>(tmp, q);
  polynomial::div<log2<N>()>(tmp, f_, G_);
""", """  for (size_t i = 0; i < N; i++) {
    G_[i] = (q[i] + F_[i] * g_[i]) / f_[i];
  }
""")
a("falcon", "  fft::cmplx tmp[N];\n", "")
a("ff", """    const uint32_t t0 = static_cast<uint32_t>(this->v);
    const uint32_t t1 = static_cast<uint32_t>(rhs.v);
    const uint32_t t2 = t0 * t1;

    const uint64_t t3 = static_cast<uint64_t>(t2) * static_cast<uint64_t>(R);
    const uint32_t t4 = static_cast<uint32_t>(t3 >> 28);
    const uint32_t t5 = t4 * static_cast<uint32_t>(Q);
    const uint16_t t6 = static_cast<uint16_t>(t2 - t5);

    const bool flg = t6 >= Q;
    const uint16_t t7 = t6 - flg * Q;

    this->v = t7;""", "    *this = *this * rhs;")
a("ff", """    const uint16_t t0 = this->v + rhs.v;
    const bool flg = t0 >= Q;
    const uint16_t t1 = t0 - flg * Q;

    this->v = t1;""", "    *this = *this + rhs;")
a("ntt", """      for (size_t i = start; i < start + len; i++) {
        const auto tmp = ζ_exp * poly[i + len];

        poly[i + len] = poly[i] - tmp;
        poly[i] += tmp;
      }""", """      for (size_t i = 0; i < len; i++) {
        const auto lo = poly[start + i];
        const auto hi = poly[start + len + i] * ζ_exp;

        poly[start + i] = lo + hi;
        poly[start + len + i] = lo - hi;
      }""")
a("fft", """    vec[i] = vec[i] * INV_N;""", """    vec[i] *= INV_N;""")
a("fft", """    f[2 * i + 0] = f0[i] + f1[i] * ζ_exp;
    f[2 * i + 1] = f0[i] - f1[i] * ζ_exp;""", """    const auto t = f1[i] * ζ_exp;
    f[2 * i + 1] = f0[i] - t;
    f[2 * i] = f0[i] + t;""")
a("u72", """    const bool flg0 = this->hi > rhs.hi;
    const bool flg1 = this->hi == rhs.hi;
    const bool flg2 = this->hi < rhs.hi;
    const bool flg3 = this->lo > rhs.lo;

    const bool flg = flg0 | (flg1 & flg3) | (!flg2 & !flg1);
    return flg;""", """    if (this->hi != rhs.hi) {
      return this->hi > rhs.hi;
    }
    return this->lo > rhs.lo;""")
a("karatsuba", """    std::array<mpz_class, 2 * N> polyab{};
    for (size_t i = 0; i < N; i++) {
      polyab[i] = polyab[i] + polya0b0[i];
      polyab[N + i] = polyab[N + i] + polya1b1[i];
      polyab[Nby2 + i] = polyab[Nby2 + i] + polyaxbx[i];
    }
""", """    std::array<mpz_class, 2 * N> polyab{};
    for (size_t i = 0; i < N; i++) {
      polyab[i] = polya0b0[i];
      polyab[N + i] = polya1b1[i];
    }
    for (size_t i = 0; i < N; i++) {
      polyab[Nby2 + i] += polyaxbx[i];
    }
""")

# ------------------------------------------------------------------ B
b("encoding", """  for (size_t hoff = 0, pkoff = 1; hoff < N; hoff += 4, pkoff += 7) {""", """  size_t hoff = 0;
  size_t pkoff = 1;
  while (hoff != N) {""")
b("encoding", """    pkey[pkoff + 6] = static_cast<uint8_t>(h[hoff + 3].v >> 6);
""", """    pkey[pkoff + 6] = static_cast<uint8_t>(h[hoff + 3].v >> 6);
    hoff += 4;
    pkoff += 7;
""")
b("encoding", """  uint8_t sig_buf[max_sbytelen]{};
""", """  uint8_t sig_buf[max_sbytelen];
  std::memset(sig_buf, 0, sizeof(sig_buf));

  const auto put = [&sig_buf](size_t& at, const uint32_t bit) {
    sig_buf[at / 8] |= static_cast<uint8_t>(bit << (7 - at % 8));
    at++;
  };
""")
b("encoding", """      const size_t byte_idx = bit_idx >> 3;
      const size_t from_bit = bit_idx & 7ul;

      sig_buf[byte_idx] |= ((poly_s[coeff_idx] < 0) * 1) << (7 - from_bit);
      bit_idx += 1;
""", """      put(bit_idx, poly_s[coeff_idx] < 0 ? 1 : 0);
""")
b("encoding", """      for (size_t i = bit_idx; i < bit_idx + 7; i++) {
        const size_t byte_idx = i >> 3;
        const size_t from_bit = i & 7ul;

        const uint8_t bit = (coeff >> (6 - (i - bit_idx))) & 0b1;
        sig_buf[byte_idx] |= bit << (7 - from_bit);
      }

      bit_idx += 7;
""", """      for (int32_t j = 6; j >= 0; j--) {
        put(bit_idx, (coeff >> j) & 1);
      }
""")
b("encoding", """  std::memset(sig_buf, 0, max_sbytelen * (bit_idx >= slen));
  std::memcpy(sig + (1 + 40), sig_buf, sbytelen - (1 + 40));

  return bit_idx < slen;""", """  if (bit_idx >= slen) {
    std::memset(sig + 41, 0, sbytelen - 41);
    return false;
  }

  std::memcpy(sig + 41, sig_buf, sbytelen - 41);
  return true;""")
b("decoding", """  if (pkey[0] != header) [[unlikely]] {
    std::fill_n(h, N, 0);
    return false;
  }

  for (size_t pkoff = 1, hoff = 0; pkoff < pklen; pkoff += 7, hoff += 4) {""", """  if (pkey[0] != header) [[unlikely]] {
    for (size_t i = 0; i < N; i++) {
      h[i] = ff::ff_t::zero();
    }
    return false;
  }

  for (size_t pkoff = 1, hoff = 0; hoff < N; pkoff += 7, hoff += 4) {
    static_assert(pklen == 1 + 7 * N / 4);""")
b("decoding", """  for (size_t Foff = 0; Foff < N; Foff++, skoff++) {
    F[Foff] = skey[skoff] - (skey[skoff] > F_max) * F_wrap_at;
  }""", """  for (size_t Foff = 0; Foff < N; Foff++) {
    F[Foff] = static_cast<int8_t>(skey[skoff + Foff]);
  }
  static_assert(F_max == 127);""")
b("decoding", """  std::memset(poly_s, 0, sizeof(int32_t) * N * failed);
  return !failed;""", """  if (failed) {
    std::fill_n(poly_s, N, 0);
    return false;
  }
  return true;""")
b("decoding", """      size_t k = 0;
      for (; bit_idx < slen;) {
        const auto ebits = std::min(8ul, slen - bit_idx);

        size_t v = 0;
        if (ebits < 8) {
          const auto t = extract_rem_contiguous_bits_in_byte(sig, bit_idx);
          v = std::min<size_t>(std::countl_zero(t), ebits);
        } else {
          const auto t = extract_8_contiguous_bits(sig, bit_idx);
          v = std::countl_zero(t);
        }
        k += v;
        bit_idx += v;

        if (v < ebits) {
          break;
        }
      }
""", """      size_t k = 0;
      while (bit_idx < slen && ((sig[bit_idx / 8] >> (7 - bit_idx % 8)) & 1) == 0) {
        k++;
        bit_idx++;
      }
""")
b("decoding", """    for (; bit_idx < slen;) {
      const size_t ebits = std::min(8ul, slen - bit_idx);

      size_t v = 0;
      if (ebits == 8) [[likely]] {
        const auto t = extract_8_contiguous_bits(sig, bit_idx);
        v = std::countl_zero(t);
      } else {
        const auto t = extract_rem_contiguous_bits_in_byte(sig, bit_idx);
        v = std::countl_zero(t);
      }

      bit_idx += ebits;
      failed |= (v < ebits);
    }
""", """    for (; bit_idx < slen; bit_idx++) {
      failed |= ((sig[bit_idx / 8] >> (7 - bit_idx % 8)) & 1) != 0;
    }
""")
b("decoding", """  if (sig[0] != header) [[unlikely]] {
    return false;
  }

  const bool decompressed = decompress_sig<N, slen>(sig, s2);
  if (!decompressed) [[unlikely]] {
    return false;
  }

  std::memcpy(salt, sig + 1, 40);
  return true;""", """  bool ok = sig[0] == header;
  if (ok) {
    ok = decompress_sig<N, slen>(sig, s2);
  }
  if (ok) {
    for (size_t i = 0; i < 40; i++) {
      salt[i] = sig[1 + i];
    }
  }
  return ok;""")
b("hashing", """      const uint16_t t = (static_cast<uint16_t>(buf[off + 0]) << 8) |
                         (static_cast<uint16_t>(buf[off + 1]) << 0);
      if (t < kq) {
        poly[coeff_idx] = ff::ff_t{ t };
        coeff_idx++;
      }""", """      uint32_t t = buf[off];
      t = (t << 8) + buf[off + 1];
      if (t <= kq - 1u) {
        while (t >= q) {
          t -= q;
        }
        poly[coeff_idx++].v = static_cast<uint16_t>(t);
      }""")
b("prng", """    std::random_device rd;

    uint8_t seed[32];
    for (size_t i = 0; i < sizeof(seed); i++) {
      seed[i] = static_cast<uint8_t>(rd());
    }
""", """    std::random_device rd{};

    uint8_t seed[32];
    for (size_t i = 0; i < sizeof(seed); i += 4) {
      const uint32_t word = rd();
      seed[i + 0] = static_cast<uint8_t>(word >> 0);
      seed[i + 1] = static_cast<uint8_t>(word >> 8);
      seed[i + 2] = static_cast<uint8_t>(word >> 16);
      seed[i + 3] = static_cast<uint8_t>(word >> 24);
    }
""")
b("verification", """    s2_ntt[i].v = static_cast<uint16_t>((s2[i] < 0) * ff::Q + s2[i]);""", """    int32_t t = s2[i];
    if (t < 0) {
      t += ff::Q;
    }
    s2_ntt[i].v = static_cast<uint16_t>(t);""")
b("verification", """  polynomial::mul<log2<N>()>(s2_ntt, h_, s1); // s1 <- s2 * h ( mod q ) [NTT]
  polynomial::neg<log2<N>()>(s1);             // s1 <- -s1 ( mod q ) [NTT]
  polynomial::add_to<log2<N>()>(s1, c);       // s1 <- s1 + c ( mod q ) [NTT]
""", """  for (size_t i = 0; i < N; i++) {
    s1[i] = c[i] - s2_ntt[i] * h_[i];
  }
""")
b("verification", """  for (size_t i = 0; i < N; i++) {
    sqrd_norm += static_cast<int64_t>(s2[i]) * s2[i];
  }
  for (size_t i = 0; i < N; i++) {
    sqrd_norm += normalized_s1[i] * normalized_s1[i];
  }

  return sqrd_norm <= β2;""", """  const auto sq = [](const int32_t* const p) {
    int64_t acc = 0;
    for (size_t i = 0; i < N; i++) {
      const int64_t x = p[i];
      acc += x * x;
    }
    return acc;
  };
  sqrd_norm = sq(normalized_s1) + sq(s2);

  return !(sqrd_norm > β2);""")
b("signing", """  fft::cmplx c_fft[N];
  for (size_t i = 0; i < N; i++) {
    c_fft[i] = fft::cmplx{ static_cast<double>(c[i].v) };
  }
  fft::fft<log2<N>()>(c_fft);
""", """  fft::cmplx c_fft[N];
  std::transform(c, c + N, c_fft, [](const ff::ff_t& x) { return fft::cmplx{ static_cast<double>(x.v), 0. }; });
  fft::fft<log2<N>()>(c_fft);
""")
b("signing", """    polynomial::mul<log2<N>()>(tz0, B, s0);
    polynomial::mul<log2<N>()>(tz1, B + 2 * N, tmp);
    polynomial::add_to<log2<N>()>(s0, tmp);

    polynomial::mul<log2<N>()>(tz0, B + N, s1);
    polynomial::mul<log2<N>()>(tz1, B + 3 * N, tmp);
    polynomial::add_to<log2<N>()>(s1, tmp);

    // compute (∥s0, s1∥) ^ 2
    const double sq_norm0 = ntru_gen::sqrd_norm<log2<N>()>(s0);
    const double sq_norm1 = ntru_gen::sqrd_norm<log2<N>()>(s1);
    const double sq_norm = sq_norm0 + sq_norm1;
""", """    polynomial::mul<log2<N>()>(tz1, B + 3 * N, tmp);
    polynomial::mul<log2<N>()>(tz0, B + N, s1);
    polynomial::add_to<log2<N>()>(s1, tmp);

    polynomial::mul<log2<N>()>(tz1, B + 2 * N, tmp);
    polynomial::mul<log2<N>()>(tz0, B, s0);
    polynomial::add_to<log2<N>()>(s0, tmp);

    double sq_norm = 0.;
    for (const auto* const s : { s0, s1 }) {
      sq_norm += ntru_gen::sqrd_norm<log2<N>()>(s);
    }
""")
b("signing", """  while (1) {
    // ffSampling""", """  bool done = false;
  while (!done) {
    // ffSampling""")
b("signing", """      const bool compressed = encoding::compress_sig<N, slen>(s2, sig);
      if (compressed) {
        break;
      }
""", """      done = encoding::compress_sig<N, slen>(s2, sig);
""")
b("ntru_gen", """  for (size_t i = 0; i < N; i++) {

    int32_t res = 0;
    for (size_t j = 0; j < k; j++) {
      res += samplerz::samplerz(0., σ, σ_min, rng);
    }

    poly[i] = res;
  }""" if False else """    poly[i] = res;
""", """    poly[i] = static_cast<int32_t>(res);
""")
b("ntru_gen", """  fft::cmplx res{};

  for (size_t i = 0; i < N; i++) {
    res += poly[i] * std::conj(poly[i]);
  }

  return std::real(res) / N_;""", """  double res = 0.;

  for (size_t i = 0; i < N; i++) {
    const double re = poly[i].real();
    const double im = poly[i].imag();
    res += re * re + im * im;
  }

  return res / N_;""")
b("ntru_gen", """  std::memcpy(f_adj, f_, sizeof(f_));
  std::memcpy(g_adj, g_, sizeof(g_));

  fft::adj_poly<LOG2N>(f_adj);
  fft::adj_poly<LOG2N>(g_adj);
""", """  for (size_t i = 0; i < N; i++) {
    f_adj[i] = std::conj(f_[i]);
    g_adj[i] = std::conj(g_[i]);
  }
""")
b("ntru_gen", """    mpz_class tmp{ old_r };
    old_r = r;
    r = tmp - mpz_class(quotient * r);

    tmp = old_s;
    old_s = s;
    s = tmp - mpz_class(quotient * s);

    tmp = old_t;
    old_t = t;
    t = tmp - mpz_class(quotient * t);
""", """    const mpz_class nr = old_r - mpz_class(quotient * r);
    const mpz_class ns = old_s - mpz_class(quotient * s);
    const mpz_class nt = old_t - mpz_class(quotient * t);

    old_r = r;
    old_s = s;
    old_t = t;
    r = nr;
    s = ns;
    t = nt;
""")
b("ntru_gen", """    if (!is_encodable<N>(f, fg_bound) || !is_encodable<N>(g, fg_bound)) {
      continue;
    }

    if (!is_poly_invertible<log2<N>()>(f)) {
      continue;
    }

    const double gsnorm = gram_schmidt_norm<log2<N>()>(f, g);
    if (gsnorm > GS_NORM_THRESHOLD) {
      continue;
    }
""", """    const bool fits = is_encodable<N>(f, fg_bound) && is_encodable<N>(g, fg_bound);
    const bool good = fits && is_poly_invertible<log2<N>()>(f) && gram_schmidt_norm<log2<N>()>(f, g) <= GS_NORM_THRESHOLD;
    if (!good) {
      continue;
    }
""")
b("ntru_gen", """    if (!is_encodable<N>(F, F_bound)) {
      continue;
    }
    break;""", """    if (is_encodable<N>(F, F_bound)) {
      break;
    }""")
b("ntru_gen", """  for (size_t i = 0; i < N; i++) {
    res[2 * i] = poly[i];
  }

  return res;""", """  size_t at = 0;
  for (const auto& x : poly) {
    res[at] = x;
    at += 2;
  }

  return res;""")
b("ntru_gen", """  mpz_class min(arr[0]);
  mpz_class max(arr[0]);

  for (size_t i = 1; i < N; i++) {
    if (min > arr[i]) {
      min = arr[i];
    }
    if (max < arr[i]) {
      max = arr[i];
    }
  }
""", """  mpz_class min(arr[0]);
  mpz_class max(arr[0]);

  for (size_t i = N - 1; i > 0; i--) {
    if (arr[i] < min) {
      min = arr[i];
    } else if (arr[i] > max) {
      max = arr[i];
    }
  }
""")
b("samplerz", """  const double s = std::floor(x * INV_LN2);
  const double r = x - s * LN2;
  const uint64_t s_ = std::min<uint64_t>(static_cast<uint64_t>(s), 63ul);
  const uint64_t z = (2 * approx_exp(r, ccs) - 1) >> s_;

  int32_t w = 0;""", """  const double s = std::floor(x * INV_LN2);
  const double r = x - LN2 * s;
  uint64_t s_ = static_cast<uint64_t>(s);
  if (s_ > 63) {
    s_ = 63;
  }
  const uint64_t y = approx_exp(r, ccs);
  const uint64_t z = (y + y - 1) >> s_;

  int32_t w = 0;""")
b("samplerz", """    const auto b = v & 0b1;
    const auto z = static_cast<double>(b + (2 * b - 1) * z0);

    const auto t2 = z - r;
    const auto t3 = t2 * t2;
    const auto t4 = t3 * t0;

    const auto t5 = static_cast<double>(z0 * z0);
    const auto t6 = t5 * t1;

    const auto x = t4 - t6;
    const auto t7""", """    const bool up = (v & 1) != 0;
    const auto z = static_cast<double>(up ? z0 + 1 : -z0);

    const auto t2 = z - r;
    const auto t4 = t2 * t2 * t0;
    const auto t6 = static_cast<double>(z0) * static_cast<double>(z0) * t1;

    const auto x = t4 - t6;
    const auto t7""")
b("samplerz", """  uint64_t y = C[0];
  uint64_t z = static_cast<uint64_t>(std::floor(9223372036854775808. * x));

  for (size_t u = 1; u < 13; u++) {
    const auto t0 = full_mul_u64(z, y);
    const auto t1 = top_63_bits(t0);
    y = C[u] - t1;
  }

  z = static_cast<uint64_t>(std::floor(9223372036854775808. * ccs));
  const auto t0 = full_mul_u64(z, y);
  y = top_63_bits(t0);

  return y;""", """  constexpr double two63 = 9223372036854775808.;
  const auto mul63 = [](const uint64_t p, const uint64_t q) { return top_63_bits(full_mul_u64(p, q)); };

  const uint64_t z = static_cast<uint64_t>(std::floor(x * two63));
  uint64_t y = C[0];
  for (size_t u = 0; u < 12; u++) {
    y = C[u + 1] - mul63(z, y);
  }

  return mul63(static_cast<uint64_t>(std::floor(ccs * two63)), y);""")
b("keygen", """  for (size_t i = 0; i < N; i++) {
    f_[i].v = static_cast<uint16_t>((f[i] < 0) * q + f[i]);
    g_[i].v = static_cast<uint16_t>((g[i] < 0) * q + g[i]);
  }

  ntt::ntt<log2<N>()>(f_);
  ntt::ntt<log2<N>()>(g_);
  polynomial::div<log2<N>()>(g_, f_, h);
  ntt::intt<log2<N>()>(h);""", """  const auto reduce = [](const int32_t x) { return ff::ff_t{ static_cast<uint16_t>((x + q) % q) }; };
  for (size_t i = 0; i < N; i++) {
    g_[i] = reduce(g[i]);
    f_[i] = reduce(f[i]);
  }

  ntt::ntt<log2<N>()>(g_);
  ntt::ntt<log2<N>()>(f_);
  for (size_t i = 0; i < N; i++) {
    h[i] = g_[i] * f_[i].inv();
  }
  ntt::intt<log2<N>()>(h);""")
b("keygen", """  compute_public_key<N>(f, g, h);
}""", """}""")
b("keygen", """  ntru_gen::ntru_gen<N>(f, g, F, G, rng);
""", """  ntru_gen::ntru_gen<N>(f, g, F, G, rng);
  compute_public_key<N>(f, g, h);
""")
b("falcon_tree", """  std::memcpy(d00, g00, sizeof(fft::cmplx) * N);
  polynomial::div<log2<N>()>(g10, g00, l10);

  fft::cmplx tmp0[N];
  fft::cmplx tmp1[N];

  std::memcpy(tmp0, l10, sizeof(tmp0));
  fft::adj_poly<log2<N>()>(tmp0);
  polynomial::mul<log2<N>()>(l10, tmp0, tmp1);
  polynomial::mul<log2<N>()>(tmp1, g00, tmp0);
  polynomial::sub<log2<N>()>(g11, tmp0, d11);""", """  for (size_t i = 0; i < N; i++) {
    d00[i] = g00[i];
    l10[i] = g10[i] / g00[i];
    d11[i] = g11[i] - l10[i] * std::conj(l10[i]) * g00[i];
  }""")
b("falcon_tree", """    T[tree_off] = σ / std::sqrt(T[tree_off].real());
    T[tree_off + (N / 2)] = σ / std::sqrt(T[tree_off + (N / 2)].real());
""", """    for (size_t i = 0; i < N; i++) {
      auto& leaf = T[tree_off + i];
      leaf = fft::cmplx{ σ / std::sqrt(leaf.real()), 0. };
    }
""")
b("ffsampling", """    std::memcpy(z0, merged_z0, sizeof(merged_z0));
    std::memcpy(z1, merged_z1, sizeof(merged_z1));
""", """    std::copy(merged_z0, merged_z0 + N, z0);
    std::copy(merged_z1, merged_z1 + N, z1);
""")
b("ffsampling", """    const double σ_prime = T[0].real();
    const auto z0_ = samplerz::samplerz(t0[0].real(), σ_prime, σ_min, rng);
    const auto z1_ = samplerz::samplerz(t1[0].real(), σ_prime, σ_min, rng);

    z0[0] = fft::cmplx{ static_cast<double>(z0_) };
    z1[0] = fft::cmplx{ static_cast<double>(z1_) };
""", """    const auto draw = [&](const fft::cmplx& μ) {
      return fft::cmplx{ static_cast<double>(samplerz::samplerz(std::real(μ), std::real(*T), σ_min, rng)) };
    };
    *z0 = draw(*t0);
    *z1 = draw(*t1);
""")
b("falcon", """  recompute_G<N>(f, g, F, G);
  compute_matrix_B<N>(f, g, F, G, B);
  compute_falcon_tree<N>(B, T);
  sign<N>(B, T, msg, mlen, sig, rng);

  return true;""", """  expand<N>(f, g, F, G, B, T);
  sign<N>(B, T, msg, mlen, sig, rng);

  return true;""")
b("falcon", """template<const size_t N>
static inline bool
sign(const uint8_t""", """template<const size_t N>
static inline void
expand(const int32_t* const f, const int32_t* const g, const int32_t* const F, int32_t* const G, fft::cmplx* const B, fft::cmplx* const T)
{
  recompute_G<N>(f, g, F, G);
  compute_matrix_B<N>(f, g, F, G, B);
  compute_falcon_tree<N>(B, T);
}

template<const size_t N>
static inline bool
sign(const uint8_t""")
b("falcon", """  constexpr double σ_values[]{ 165.736617183, 168.388571447 };
  constexpr double σ = σ_values[N == 1024];
""", """  constexpr double σ = N == 512 ? 165.736617183 : 168.388571447;
""")
b("ff", """    const uint16_t t0 = this->v + rhs.v;
    const bool flg = t0 >= Q;
    const uint16_t t1 = t0 - flg * Q;

    return ff_t{ t1 };""", """    uint32_t t0 = static_cast<uint32_t>(this->v) + rhs.v;
    if (t0 >= Q) {
      t0 -= Q;
    }
    return ff_t{ static_cast<uint16_t>(t0) };""")
b("ff", """    const ff_t t0 = -rhs;
    return *this + t0;""", """    const int32_t t = static_cast<int32_t>(this->v) - rhs.v;
    return ff_t{ static_cast<uint16_t>(t < 0 ? t + Q : t) };""")
b("ff", """    const bool flg0 = this->v == 0;
    const uint16_t t0 = this->v + flg0 * 1;

    const auto res = xgcd(t0, Q);

    const bool flg1 = res[0] < 0;
    const uint16_t t1 = static_cast<uint16_t>(flg1 * Q + res[0]);

    const bool flg2 = t1 >= Q;
    const uint16_t t2 = t1 - flg2 * Q;
    const uint16_t t3 = t2 - flg0 * 1;

    return ff_t{ t3 };""", """    if (this->v == 0) {
      return ff_t{ 0 };
    }
    const auto res = xgcd(this->v, Q);
    return ff_t{ static_cast<uint16_t>(res[0] < 0 ? res[0] + Q : res[0]) };""")
b("ff", """    const size_t zeros = std::countl_zero(n);
    const size_t till = 64ul - zeros;

    for (size_t i = 1; i < till; i++) {
      base = base * base;

      const ff_t br[]{ ff_t::one(), base };
      res = res * br[(n >> i) & 0b1ul];
    }
""", """    for (size_t m = n >> 1; m != 0; m >>= 1) {
      base = base * base;
      if (m & 1) {
        res = res * base;
      }
    }
""")
b("ntt", """        const auto tmp = poly[i];

        poly[i] += poly[i + len];
        poly[i + len] = tmp - poly[i + len];
        poly[i + len] *= neg_ζ_exp;""", """        const auto a = poly[i];
        const auto b = poly[i + len];

        poly[i + len] = (a - b) * neg_ζ_exp;
        poly[i] = a + b;""")
b("ntt", """  for (size_t i = 0; i < N; i++) {
    if constexpr (LOG2N == FALCON512_LOG2N) {
      poly[i] *= INV_FALCON512_N;
    } else {
      poly[i] *= INV_FALCON1024_N;
    }
  }""", """  constexpr auto inv_n = LOG2N == FALCON512_LOG2N ? INV_FALCON512_N : INV_FALCON1024_N;
  for (size_t i = 0; i < N; i++) {
    poly[i] = poly[i] * inv_n;
  }""")
b("fft", """        const auto tmp = ζ_exp * vec[i + len];

        vec[i + len] = vec[i] - tmp;
        vec[i] = vec[i] + tmp;""", """        const auto x = vec[i];
        const auto y = vec[i + len] * ζ_exp;

        vec[i] = x + y;
        vec[i + len] = x - y;""")
b("fft", """    f0[i] = 0.5 * (f[2 * i] + f[2 * i + 1]);
    f1[i] = 0.5 * (f[2 * i] - f[2 * i + 1]) * std::conj(ζ_exp);""", """    const auto x = f[2 * i];
    const auto y = f[2 * i + 1];

    f0[i] = (x + y) / 2.;
    f1[i] = (x - y) * std::conj(ζ_exp) / 2.;""")
b("u72", """    const uint64_t lo = this->lo + rhs.lo;
    const bool flg = this->lo > UINT64_MAX - rhs.lo;
    const uint64_t hi = (this->hi + rhs.hi + flg * 1ul) & 0xfful;
""", """    const uint64_t lo = this->lo + rhs.lo;
    const uint64_t carry = lo < this->lo ? 1 : 0;
    const uint64_t hi = (this->hi + rhs.hi + carry) & 0xfful;
""")
b("u72", """    const uint64_t hi = static_cast<uint64_t>(bytes[8]);
    uint64_t lo = 0ul;

    for (size_t i = 0; i < 8; i++) {
      lo |= static_cast<uint64_t>(bytes[i]) << (i * 8);
    }
""", """    const uint64_t hi = bytes[8];
    uint64_t lo = 0ul;

    for (size_t i = 8; i-- > 0;) {
      lo = (lo << 8) | bytes[i];
    }
""")
b("karatsuba", """  std::array<mpz_class, N> res{};
  for (size_t i = 0; i < N; i++) {
    res[i] = polyab[i] - polyab[N + i];
  }

  return res;""", """  std::array<mpz_class, N> res;
  for (size_t i = N; i > 0; i--) {
    res[i - 1] = polyab[i - 1];
    res[i - 1] -= polyab[N + i - 1];
  }

  return res;""")
b("polynomial", """  for (size_t i = 0; i < n; i++) {
    polya[i] += polyb[i];
  }
}

""", """  for (size_t i = 0; i < n; i++) {
    polya[i] = polya[i] + polyb[i];
  }
}

""")

# ------------------------------------------------------------------ C
cc("encoding", """    // encode sign bit
    {
      const size_t byte_idx = bit_idx >> 3;
      const size_t from_bit = bit_idx & 7ul;

      sig_buf[byte_idx] |= ((poly_s[coeff_idx] < 0) * 1) << (7 - from_bit);
      bit_idx += 1;
    }
""", """    const auto put = [&](const bool bit) {
      if (bit) {
        sig_buf[bit_idx / 8] |= 0x80 >> (bit_idx % 8);
      }
      bit_idx += 1;
    };

    put(poly_s[coeff_idx] < 0);
""")
cc("encoding", """      for (size_t i = bit_idx; i < bit_idx + 7; i++) {
        const size_t byte_idx = i >> 3;
        const size_t from_bit = i & 7ul;

        const uint8_t bit = (coeff >> (6 - (i - bit_idx))) & 0b1;
        sig_buf[byte_idx] |= bit << (7 - from_bit);
      }

      bit_idx += 7;
""", """      for (int i = 6; i >= 0; i--) {
        put((coeff >> i) & 1);
      }
""")
cc("encoding", """      const size_t k = std::abs(poly_s[coeff_idx]) >> 7;
      for (size_t i = bit_idx; i < bit_idx + k; i++) {
        const size_t byte_idx = i >> 3;
        const size_t from_bit = i & 7ul;

        sig_buf[byte_idx] |= 0 << (7 - from_bit);
      }

      bit_idx += k;
      sig_buf[bit_idx >> 3] |= 1 << (7 - (bit_idx & 7ul));
      bit_idx += 1;
""", """      bit_idx += static_cast<size_t>(std::abs(poly_s[coeff_idx])) / 128;
      put(true);
""")
cc("decoding", """    // extracts sign bit and low ( least significant ) 7 bits of coefficient
    {
      const uint8_t res = extract_8_contiguous_bits(sig, bit_idx);

      sign_bit = res >> 7; // sign bit
      coeff = res & 0x7f;  // low 7 bits of coefficient
      bit_idx += 8;
    }
""", """    const auto bit_at = [sig](const size_t i) -> uint8_t { return (sig[i / 8] >> (7 - i % 8)) & 1; };

    sign_bit = bit_at(bit_idx);
    for (size_t i = 1; i < 8; i++) {
      coeff = 2 * coeff + bit_at(bit_idx + i);
    }
    bit_idx += 8;
""")
cc("decoding", """      for (; bit_idx < slen;) {
        const auto ebits = std::min(8ul, slen - bit_idx);

        size_t v = 0;
        if (ebits < 8) {
          const auto t = extract_rem_contiguous_bits_in_byte(sig, bit_idx);
          v = std::min<size_t>(std::countl_zero(t), ebits);
        } else {
          const auto t = extract_8_contiguous_bits(sig, bit_idx);
          v = std::countl_zero(t);
        }
        k += v;
        bit_idx += v;

        if (v < ebits) {
          break;
        }
      }
""", """      while ((bit_idx < slen) && (bit_at(bit_idx) == 0)) {
        k += 1;
        bit_idx += 1;
      }
""")
cc("decoding", """    for (; bit_idx < slen;) {
      const size_t ebits = std::min(8ul, slen - bit_idx);

      size_t v = 0;
      if (ebits == 8) [[likely]] {
        const auto t = extract_8_contiguous_bits(sig, bit_idx);
        v = std::countl_zero(t);
      } else {
        const auto t = extract_rem_contiguous_bits_in_byte(sig, bit_idx);
        v = std::countl_zero(t);
      }

      bit_idx += ebits;
      failed |= (v < ebits);
    }
""", """    for (size_t i = bit_idx; i < slen; i++) {
      failed |= ((sig[i >> 3] >> (7 - (i & 7))) & 1) != 0;
    }
""")
cc("decoding", """    for (size_t foff = 0; foff < N; foff += 4, skoff += 3) {
      const int32_t f0 = skey[skoff] & mask6;
      const int32_t f1 = ((skey[skoff + 1] & mask4) << 2) | (skey[skoff] >> 6);
      int32_t f2 = ((skey[skoff + 2] & mask2) << 4) | (skey[skoff + 1] >> 4);
      const int32_t f3 = skey[skoff + 2] >> 2;

      f[foff + 0] = f0 - (f0 > fg_max) * fg_wrap_at;
      f[foff + 1] = f1 - (f1 > fg_max) * fg_wrap_at;
      f[foff + 2] = f2 - (f2 > fg_max) * fg_wrap_at;
      f[foff + 3] = f3 - (f3 > fg_max) * fg_wrap_at;
    }
""", """    for (size_t foff = 0; foff < N; foff += 4, skoff += 3) {
      uint32_t w = static_cast<uint32_t>(skey[skoff]) | (static_cast<uint32_t>(skey[skoff + 1]) << 8) |
                   (static_cast<uint32_t>(skey[skoff + 2]) << 16);
      for (size_t j = 0; j < 4; j++) {
        const int32_t t = w & 63;
        f[foff + j] = t > 31 ? t - 64 : t;
        w >>= 6;
      }
    }
""")
cc("prng", """    uint8_t seed[32];
    for (size_t i = 0; i < sizeof(seed); i++) {
      seed[i] = static_cast<uint8_t>(rd());
    }
""", """    uint8_t seed[32];
    for (auto& b : seed) {
      const auto w = rd();
      b = w & 0xff;
    }
""")
cc("signing", """  fft::cmplx c_fft[N];
  for (size_t i = 0; i < N; i++) {
    c_fft[i] = fft::cmplx{ static_cast<double>(c[i].v) };
  }
  fft::fft<log2<N>()>(c_fft);

  fft::cmplx t0[N];
  fft::cmplx t1[N];

  polynomial::mul<log2<N>()>(c_fft, B + 3 * N, t0);
  polynomial::mul<log2<N>()>(c_fft, B + N, t1);

  constexpr fft::cmplx q{ ff::Q };
  for (size_t i = 0; i < N; i++) {
    t0[i] /= q;
    t1[i] = -(t1[i] / q);
  }
""", """  fft::cmplx c_fft[N];
  std::transform(c, c + N, c_fft, [](const ff::ff_t& e) { return fft::cmplx{ static_cast<double>(e.v), 0. }; });
  fft::fft<log2<N>()>(c_fft);

  fft::cmplx t0[N];
  fft::cmplx t1[N];

  constexpr double q = ff::Q;
  const fft::cmplx* const b01 = B + N;
  const fft::cmplx* const b11 = b01 + 2 * N;
  for (size_t i = 0; i < N; i++) {
    t0[i] = (c_fft[i] * b11[i]) / q;
    t1[i] = (c_fft[i] * b01[i]) / -q;
  }
""")
cc("signing", """    polynomial::mul<log2<N>()>(tz0, B, s0);
    polynomial::mul<log2<N>()>(tz1, B + 2 * N, tmp);
    polynomial::add_to<log2<N>()>(s0, tmp);

    polynomial::mul<log2<N>()>(tz0, B + N, s1);
    polynomial::mul<log2<N>()>(tz1, B + 3 * N, tmp);
    polynomial::add_to<log2<N>()>(s1, tmp);
""", """    for (size_t i = 0; i < N; i++) {
      s0[i] = tz0[i] * B[i] + tz1[i] * B[2 * N + i];
      s1[i] = tz0[i] * B[N + i] + tz1[i] * B[3 * N + i];
    }
""")
cc("signing", "  fft::cmplx tmp[N];\n", "")
cc("ntru_gen", """  while (1) {
    gen_poly<log2<N>()>(f, rng);
    gen_poly<log2<N>()>(g, rng);

    if (!is_encodable<N>(f, fg_bound) || !is_encodable<N>(g, fg_bound)) {
      continue;
    }

    if (!is_poly_invertible<log2<N>()>(f)) {
      continue;
    }

    const double gsnorm = gram_schmidt_norm<log2<N>()>(f, g);
    if (gsnorm > GS_NORM_THRESHOLD) {
      continue;
    }
""", """  const auto suitable = [&]() {
    return is_encodable<N>(f, fg_bound) && is_encodable<N>(g, fg_bound) && is_poly_invertible<log2<N>()>(f) &&
           !(gram_schmidt_norm<log2<N>()>(f, g) > GS_NORM_THRESHOLD);
  };

  for (;;) {
    do {
      gen_poly<log2<N>()>(f, rng);
      gen_poly<log2<N>()>(g, rng);
    } while (!suitable());
""")
cc("ntru_gen", """    if (!is_encodable<N>(F, F_bound)) {
      continue;
    }
""", """    if (is_encodable<N>(F, F_bound)) {
""")
cc("ntru_gen", """    break;
  }
}

}""", """      return;
    }
  }
}

}""")
cc("ntru_gen", """  fft::cmplx fxf_adj[N];
  fft::cmplx gxg_adj[N];

  polynomial::mul<LOG2N>(f_, f_adj, fxf_adj);
  polynomial::mul<LOG2N>(g_, g_adj, gxg_adj);

  fft::cmplx fxf_adj_gxg_adj[N];
  polynomial::add<LOG2N>(fxf_adj, gxg_adj, fxf_adj_gxg_adj);

  fft::cmplx ft[N];
  fft::cmplx gt[N];

  polynomial::div<LOG2N>(f_adj, fxf_adj_gxg_adj, ft);
  polynomial::div<LOG2N>(g_adj, fxf_adj_gxg_adj, gt);
""", """  fft::cmplx ft[N];
  fft::cmplx gt[N];

  for (size_t i = 0; i < N; i++) {
    const fft::cmplx d = f_[i] * f_adj[i] + g_[i] * g_adj[i];
    ft[i] = f_adj[i] / d;
    gt[i] = g_adj[i] / d;
  }
""")
cc("ntru_gen", """  const nby2poly_t polye_sq = karatsuba::karamul(polye, polye);
  const nby2poly_t polyo_sq = karatsuba::karamul(polyo, polyo);

  nby2poly_t res = polye_sq;
  for (size_t i = 0; i < Nby2 - 1; i++) {
    res[i + 1] = res[i + 1] - polyo_sq[i];
  }
  res[0] = res[0] + polyo_sq[Nby2 - 1];

  return res;""", """  nby2poly_t res = karatsuba::karamul(polye, polye);
  const nby2poly_t odd = karatsuba::karamul(polyo, polyo);

  for (size_t i = 0; i < Nby2; i++) {
    if (i == 0) {
      res[i] += odd[Nby2 - 1];
    } else {
      res[i] -= odd[i - 1];
    }
  }

  return res;""")
cc("ntru_gen", """  while (r != mpz_class{ 0 }) {
    mpz_class quotient = old_r / r;

    mpz_class tmp{ old_r };
    old_r = r;
    r = tmp - mpz_class(quotient * r);

    tmp = old_s;
    old_s = s;
    s = tmp - mpz_class(quotient * s);

    tmp = old_t;
    old_t = t;
    t = tmp - mpz_class(quotient * t);
  }
""", """  while (r != 0) {
    const mpz_class quotient = old_r / r;

    const mpz_class nr = old_r - quotient * r;
    const mpz_class ns = old_s - quotient * s;
    const mpz_class nt = old_t - quotient * t;

    old_r = r;
    old_s = s;
    old_t = t;
    r = nr;
    s = ns;
    t = nt;
  }
""")
cc("ntru_gen", """    fft::cmplx F_adjoint[N];
    fft::cmplx G_adjoint[N];

    for""", """    for""")
cc("ntru_gen", """    std::memcpy(F_adjoint, F_adjust, sizeof(F_adjust));
    std::memcpy(G_adjoint, G_adjust, sizeof(G_adjust));

    fft::adj_poly<log2<N>()>(F_adjoint);
    fft::adj_poly<log2<N>()>(G_adjoint);

    fft::cmplx ff_mul[N];
    fft::cmplx gg_mul[N];
    fft::cmplx Ff_mul[N];
    fft::cmplx Gg_mul[N];

    polynomial::mul<log2<N>()>(f_adjust, f_adjoint, ff_mul);
    polynomial::mul<log2<N>()>(g_adjust, g_adjoint, gg_mul);
    polynomial::mul<log2<N>()>(F_adjust, f_adjoint, Ff_mul);
    polynomial::mul<log2<N>()>(G_adjust, g_adjoint, Gg_mul);

    fft::cmplx ffgg_add[N];
    fft::cmplx FfGg_add[N];

    polynomial::add<log2<N>()>(ff_mul, gg_mul, ffgg_add);
    polynomial::add<log2<N>()>(Ff_mul, Gg_mul, FfGg_add);

    fft::cmplx k[N];

    polynomial::div<log2<N>()>(FfGg_add, ffgg_add, k);
    fft::ifft<log2<N>()>(k);

    signed long k_rounded[N];
    for (size_t i = 0; i < N; i++) {
      k_rounded[i] = static_cast<signed long>(std::round(k[i].real()));
    }

    bool atleast_one_nonzero = false;
    for (size_t i = 0; i < N; i++) {
      atleast_one_nonzero |= k_rounded[i] != 0;
    }

    if (!atleast_one_nonzero) {
      break;
    }

    std::array<mpz_class, N> k_mpz;
    for (size_t i = 0; i < N; i++) {
      k_mpz[i] = mpz_class(k_rounded[i]);
    }
""", """    fft::cmplx k[N];
    for (size_t i = 0; i < N; i++) {
      const auto num = F_adjust[i] * f_adjoint[i] + G_adjust[i] * g_adjoint[i];
      const auto den = f_adjust[i] * f_adjoint[i] + g_adjust[i] * g_adjoint[i];
      k[i] = num / den;
    }
    fft::ifft<log2<N>()>(k);

    size_t nonzero = 0;
    std::array<mpz_class, N> k_mpz;
    for (size_t i = 0; i < N; i++) {
      const long ki = static_cast<long>(std::round(k[i].real()));
      nonzero += ki != 0;
      k_mpz[i] = ki;
    }

    if (nonzero == 0) {
      return;
    }
""")
cc("ntru_gen", """    for (size_t i = 0; i < N; i++) {
      F[i] = F[i] - mpz_class(fk[i] << (blen1 - blen0));
      G[i] = G[i] - mpz_class(gk[i] << (blen1 - blen0));
    }
""", """    const size_t by = blen1 - blen0;
    for (size_t i = 0; i < N; i++) {
      F[i] -= fk[i] << by;
    }
    for (size_t i = 0; i < N; i++) {
      G[i] -= gk[i] << by;
    }
""")
cc("ntru_gen", """    auto F = karatsuba::karamul(lift(ret.first.first), galois_conjugate(g));
    auto G = karatsuba::karamul(lift(ret.first.second), galois_conjugate(f));

    reduce(f, g, F, G);
    return { { F, G }, ntru_solve_status_t{} };""", """    const auto& [Fp, Gp] = ret.first;
    const auto gx = galois_conjugate(g);
    const auto fx = galois_conjugate(f);
    std::array<mpz_class, N> F = karatsuba::karamul(gx, lift(Fp));
    std::array<mpz_class, N> G = karatsuba::karamul(fx, lift(Gp));

    reduce(f, g, F, G);
    return std::make_pair(std::make_pair(F, G), ntru_solve_status_t{ 0u });""")
cc("ntru_gen", """    const auto ret = xgcd(f[0], g[0]);
    if (ret[2] != mpz_class{ 1 }) {
      return { {}, ntru_solve_status_t{ 1u } };
    } else {
      constexpr int32_t q = ff::Q;
      return { { { mpz_class(-q * ret[1]) }, { mpz_class(q * ret[0]) } },
               ntru_solve_status_t{} };
    }""", """    const auto [u, v, d] = xgcd(f[0], g[0]);
    const bool coprime = d == 1;
    if (coprime) {
      const mpz_class q{ ff::Q };
      const mpz_class F0 = -(v * q);
      const mpz_class G0 = u * q;
      return { { { F0 }, { G0 } }, ntru_solve_status_t{} };
    }
    return { {}, ntru_solve_status_t{ 1u } };""")
cc("ntru_gen", """  mpz_class v_;
  mpz_abs(v_.get_mpz_t(), v.get_mpz_t());

  size_t len = 0;
  while (v_ > zero) {
    len += 8;
    v_ = v_ >> 8;
  }

  return len;""", """  mpz_class v_ = abs(v);

  size_t bytes = 0;
  for (; v_ != zero; bytes++) {
    v_ >>= 8;
  }

  return bytes * 8;""")
cc("ntru_gen", """  bool flg = true;
  for (size_t i = 0; i < N; i++) {
    flg &= (poly[i] >= -bound) && (poly[i] <= bound);
  }

  return flg;""", """  return std::all_of(poly, poly + N, [=](const int32_t e) { return std::abs(e) <= bound; });""")
cc("samplerz", """  const double s = std::floor(x * INV_LN2);
  const double r = x - s * LN2;
  const uint64_t s_ = std::min<uint64_t>(static_cast<uint64_t>(s), 63ul);
  const uint64_t z = (2 * approx_exp(r, ccs) - 1) >> s_;

  int32_t w = 0;
  int64_t i = 64l;
  do {
    i = i - 8l;

    uint8_t t0;
    rng.read(&t0, sizeof(t0));

    w = static_cast<int32_t>(t0) - static_cast<int32_t>((z >> i) & 0xfful);
  } while ((w == 0) && (i > 0l));

  return w < 0;""", """  const double s = std::floor(x * INV_LN2);
  const double r = x - s * LN2;
  uint64_t s_ = static_cast<uint64_t>(s);
  if (s_ > 63) {
    s_ = 63;
  }
  const uint64_t z = (2 * approx_exp(r, ccs) - 1) >> s_;

  for (int shift = 56; shift >= 0; shift -= 8) {
    uint8_t t0;
    rng.read(&t0, 1);

    const uint8_t want = static_cast<uint8_t>(z >> shift);
    if (t0 != want) {
      return t0 < want ? 1 : 0;
    }
  }

  return 0;""")
cc("samplerz", """  std::array<uint8_t, 9> bytes;
  rng.read(bytes.data(), bytes.size());

  const u72::u72_t u = u72::u72_t::from_le_bytes(std::move(bytes));

  uint32_t z0 = 0u;
  for (size_t i = 0; i < 18; i++) {
    z0 = z0 + 1u * (u < RCDT[i]);
  }

  return z0;""", """  std::array<uint8_t, 9> bytes;
  rng.read(bytes.data(), sizeof(bytes));

  return base_sampler(std::move(bytes));""")
cc("samplerz", """    const auto z0 = static_cast<int32_t>(base_sampler(rng));

    uint8_t v;
    rng.read(&v, sizeof(v));

    const auto b = v & 0b1;
    const auto z = static_cast<double>(b + (2 * b - 1) * z0);

    const auto t2 = z - r;
    const auto t3 = t2 * t2;
    const auto t4 = t3 * t0;

    const auto t5 = static_cast<double>(z0 * z0);
    const auto t6 = t5 * t1;

    const auto x = t4 - t6;
    const auto t7 = ber_exp(x, ccs, rng);
    if (t7 == 1) {
      return static_cast<int32_t>(z + std::floor(μ));
    }
""", """    const int32_t z0 = static_cast<int32_t>(base_sampler(rng));

    uint8_t v;
    rng.read(&v, 1);

    const int32_t zi = (v & 1) ? z0 + 1 : -z0;
    const double d = static_cast<double>(zi) - r;
    const double x = d * d * t0 - static_cast<double>(z0) * static_cast<double>(z0) * t1;
    if (ber_exp(x, ccs, rng)) {
      return zi + static_cast<int32_t>(std::floor(μ));
    }
""")
cc("samplerz", """  for (size_t u = 1; u < 13; u++) {
    const auto t0 = full_mul_u64(z, y);
    const auto t1 = top_63_bits(t0);
    y = C[u] - t1;
  }
""", """  for (const uint64_t* cu = C + 1; cu != C + 13; ++cu) {
    y = *cu - top_63_bits(full_mul_u64(y, z));
  }
""")
cc("keygen", """  fft::cmplx B_adj[N * 2 * 2];
  fft::cmplx tmp[N];

  // compute B*
  std::memcpy(B_adj, B, sizeof(B_adj));
  fft::adj_poly<log2<N>()>(B_adj);
  fft::adj_poly<log2<N>()>(B_adj + N);
  fft::adj_poly<log2<N>()>(B_adj + 2 * N);
  fft::adj_poly<log2<N>()>(B_adj + 3 * N);

  // compute G[0][0]
  polynomial::mul<log2<N>()>(B, B_adj, G);
  polynomial::mul<log2<N>()>(B + N, B_adj + N, tmp);
  polynomial::add_to<log2<N>()>(G, tmp);

  // compute G[0][1]
  polynomial::mul<log2<N>()>(B, B_adj + 2 * N, G + N);
  polynomial::mul<log2<N>()>(B + N, B_adj + 3 * N, tmp);
  polynomial::add_to<log2<N>()>(G + N, tmp);

  // compute G[1][0]
  polynomial::mul<log2<N>()>(B + 2 * N, B_adj, G + 2 * N);
  polynomial::mul<log2<N>()>(B + 3 * N, B_adj + N, tmp);
  polynomial::add_to<log2<N>()>(G + 2 * N, tmp);

  // compute G[1][1]
  polynomial::mul<log2<N>()>(B + 2 * N, B_adj + 2 * N, G + 3 * N);
  polynomial::mul<log2<N>()>(B + 3 * N, B_adj + 3 * N, tmp);
  polynomial::add_to<log2<N>()>(G + 3 * N, tmp);
""", """  for (size_t r = 0; r < 2; r++) {
    for (size_t k = 0; k < 2; k++) {
      const fft::cmplx* const u = B + 2 * r * N;
      const fft::cmplx* const v = B + 2 * k * N;
      fft::cmplx* const o = G + (2 * r + k) * N;
      for (size_t i = 0; i < N; i++) {
        o[i] = u[i] * std::conj(v[i]) + u[N + i] * std::conj(v[N + i]);
      }
    }
  }
""")
cc("keygen", """  fft::fft<log2<N>()>(B);
  fft::fft<log2<N>()>(B + N);
  fft::fft<log2<N>()>(B + 2 * N);
  fft::fft<log2<N>()>(B + 3 * N);
""", """  for (size_t i = 0; i < 4; i++) {
    fft::fft<log2<N>()>(B + i * N);
  }
""")
cc("falcon_tree", """  std::memcpy(d00, g00, sizeof(fft::cmplx) * N);
  polynomial::div<log2<N>()>(g10, g00, l10);

  fft::cmplx tmp0[N];
  fft::cmplx tmp1[N];

  std::memcpy(tmp0, l10, sizeof(tmp0));
  fft::adj_poly<log2<N>()>(tmp0);
  polynomial::mul<log2<N>()>(l10, tmp0, tmp1);
  polynomial::mul<log2<N>()>(tmp1, g00, tmp0);
  polynomial::sub<log2<N>()>(g11, tmp0, d11);
""", """  for (size_t i = 0; i < N; i++) {
    const fft::cmplx l = g10[i] / g00[i];
    l10[i] = l;
    d00[i] = g00[i];
    d11[i] = g11[i] - g00[i] * std::norm(l);
  }
""")
cc("falcon_tree", """    T[tree_off] = σ / std::sqrt(T[tree_off].real());
    T[tree_off + (N / 2)] = σ / std::sqrt(T[tree_off + (N / 2)].real());
""", """    const auto leaf = [σ](fft::cmplx& e) { e = fft::cmplx{ σ / std::sqrt(e.real()), 0. }; };
    leaf(T[tree_off]);
    leaf(T[tree_off + 1]);
""")
cc("ffsampling", """    fft::cmplx tmp0[N];
    fft::cmplx tmp1[N];
    polynomial::sub<log2<N>()>(t1, merged_z1, tmp0);
    polynomial::mul<log2<N>()>(tmp0, l, tmp1);
    polynomial::add<log2<N>()>(t0, tmp1, tmp0);
""", """    fft::cmplx tmp0[N];
    for (size_t i = 0; i < N; i++) {
      tmp0[i] = t0[i] + (t1[i] - merged_z1[i]) * l[i];
    }
""")
cc("ffsampling", """    fft::cmplx merged_z0[N];
    fft::merge_fft<log2<N>()>(z0l, z1l, merged_z0);

    std::memcpy(z0, merged_z0, sizeof(merged_z0));
    std::memcpy(z1, merged_z1, sizeof(merged_z1));
""", """    fft::merge_fft<log2<N>()>(z0l, z1l, tmp0);

    std::copy_n(tmp0, N, z0);
    std::copy_n(merged_z1, N, z1);
""")
cc("u72", """    const bool flg0 = this->hi > rhs.hi;
    const bool flg1 = this->hi == rhs.hi;
    const bool flg2 = this->hi < rhs.hi;
    const bool flg3 = this->lo > rhs.lo;

    const bool flg = flg0 | (flg1 & flg3) | (!flg2 & !flg1);
    return flg;""", """    if (this->hi != rhs.hi) {
      return this->hi > rhs.hi;
    }
    return this->lo > rhs.lo;""")
cc("verification", """  for (size_t i = 0; i < N; i++) {
    s2_ntt[i].v = static_cast<uint16_t>((s2[i] < 0) * ff::Q + s2[i]);""", """  for (size_t i = 0; i < N; i++) {
    s2_ntt[i].v = static_cast<uint16_t>(s2[i] < 0 ? s2[i] + ff::Q : s2[i]);""")

cc("falcon", """  for (size_t i = 0; i < N; i++) {
    f_[i] = fft::cmplx{ static_cast<double>(f[i]) };
    g_[i] = fft::cmplx{ static_cast<double>(g[i]) };
    F_[i] = fft::cmplx{ static_cast<double>(F[i]) };
    q[i] = fft::cmplx{ Q };
  }
""", """  const auto widen = [](const int32_t* const from, fft::cmplx* const to) {
    for (size_t i = 0; i < N; i++) {
      to[i] = fft::cmplx{ static_cast<double>(from[i]), 0. };
    }
  };
  widen(f, f_);
  widen(g, g_);
  widen(F, F_);
""")
cc("falcon", """  polynomial::mul<log2<N>()>(g_, F_, tmp);
  polynomial::add_to<log2<N>()>(tmp, q);
  polynomial::div<log2<N>()>(tmp, f_, G_);
""", """  for (size_t i = 0; i < N; i++) {
    G_[i] = (Q + g_[i] * F_[i]) / f_[i];
  }
""")
cc("falcon", "  fft::cmplx q[N];\n  fft::cmplx tmp[N];\n", "")
cc("falcon", """  fft::fft<log2<N>()>(B);
  fft::fft<log2<N>()>(B + N);
  fft::fft<log2<N>()>(B + 2 * N);
  fft::fft<log2<N>()>(B + 3 * N);
""", """  for (auto row = B; row != B + 4 * N; row += N) {
    fft::fft<log2<N>()>(row);
  }
""")
cc("falcon", """  const bool decoded = decoding::decode_skey<N>(skey, f, g, F);
  if (!decoded) [[unlikely]] {
    return decoded;
  }

  recompute_G<N>(f, g, F, G);
  compute_matrix_B<N>(f, g, F, G, B);
  compute_falcon_tree<N>(B, T);
  sign<N>(B, T, msg, mlen, sig, rng);

  return true;""", """  const bool decoded = decoding::decode_skey<N>(skey, f, g, F);
  if (decoded) {
    recompute_G<N>(f, g, F, G);
    compute_matrix_B<N>(f, g, F, G, B);
    compute_falcon_tree<N>(B, T);
    sign<N>(B, T, msg, mlen, sig, rng);
  }

  return decoded;""")
cc("falcon", """  constexpr int32_t β2_values[]{ 34034726, 70265242 };
  constexpr int32_t β2 = β2_values[N == 1024];

  return verification""", """  constexpr int32_t β2 = N == 512 ? 34034726 : 70265242;

  return verification""")
cc("verification", """  for (size_t i = 0; i < N; i++) {
    sqrd_norm += static_cast<int64_t>(s2[i]) * s2[i];
  }
  for (size_t i = 0; i < N; i++) {
    sqrd_norm += normalized_s1[i] * normalized_s1[i];
  }

  return sqrd_norm <= β2;""", """  const auto sq = [](const int64_t v) { return v * v; };
  for (size_t i = 0; i < N; i++) {
    sqrd_norm += sq(normalized_s1[i]) + sq(s2[i]);
  }

  return !(sqrd_norm > β2);""")
cc("hashing", """  while (coeff_idx < n) {
    hasher.read(buf, sizeof(buf));

    for (size_t off = 0; (off < sizeof(buf)) && (coeff_idx < n); off += 2) {
      const uint16_t t = (static_cast<uint16_t>(buf[off + 0]) << 8) |
                         (static_cast<uint16_t>(buf[off + 1]) << 0);
      if (t < kq) {
        poly[coeff_idx] = ff::ff_t{ t };
        coeff_idx++;
      }
    }
  }""", """  size_t off = sizeof(buf);

  while (coeff_idx < n) {
    if (off == sizeof(buf)) {
      hasher.read(buf, sizeof(buf));
      off = 0;
    }

    const uint32_t t = 256u * buf[off] + buf[off + 1];
    off += 2;
    if (t >= kq) {
      continue;
    }
    poly[coeff_idx++].v = static_cast<uint16_t>(t % ff::Q);
  }""")
cc("ff", """    const uint32_t t0 = static_cast<uint32_t>(this->v);
    const uint32_t t1 = static_cast<uint32_t>(rhs.v);
    const uint32_t t2 = t0 * t1;

    const uint64_t t3 = static_cast<uint64_t>(t2) * static_cast<uint64_t>(R);
    const uint32_t t4 = static_cast<uint32_t>(t3 >> 28);
    const uint32_t t5 = t4 * static_cast<uint32_t>(Q);
    const uint16_t t6 = static_cast<uint16_t>(t2 - t5);

    const bool flg = t6 >= Q;
    const uint16_t t7 = t6 - flg * Q;

    return ff_t{ t7 };""", """    const uint32_t t = static_cast<uint32_t>(this->v) * rhs.v;
    return ff_t{ static_cast<uint16_t>(t % Q) };""")
cc("ff", """    const uint16_t t0 = this->v + rhs.v;
    const bool flg = t0 >= Q;
    const uint16_t t1 = t0 - flg * Q;

    this->v = t1;""", """    *this = *this + rhs;""")

# ------------------------------------------------------------------ D
dd("encoding", """  uint8_t sig_buf[max_sbytelen]{};
""", """  std::vector<uint8_t> sig_buf(max_sbytelen, 0);
""")
dd("encoding", """  std::memset(sig_buf, 0, max_sbytelen * (bit_idx >= slen));
  std::memcpy(sig + (1 + 40), sig_buf, sbytelen - (1 + 40));

  return bit_idx < slen;""", """  const bool fits = bit_idx < slen;
  if (fits) {
    std::copy(sig_buf.begin(), sig_buf.begin() + (sbytelen - 41), sig + 41);
  } else {
    std::fill(sig + 41, sig + sbytelen, 0);
  }

  return fits;""")
dd("encoding", "#pragma once\n", "#pragma once\n#include <vector>\n#include <numeric>\n#include <optional>\n#include <span>\n")
dd("encoding", """      const uint8_t g0 = static_cast<uint8_t>(flg0 * wrap_at + g[goff + 0]);
      const uint8_t g1 = static_cast<uint8_t>(flg1 * wrap_at + g[goff + 1]);
      const uint8_t g2 = static_cast<uint8_t>(flg2 * wrap_at + g[goff + 2]);
      const uint8_t g3 = static_cast<uint8_t>(flg3 * wrap_at + g[goff + 3]);
      const uint8_t g4 = static_cast<uint8_t>(flg4 * wrap_at + g[goff + 4]);
      const uint8_t g5 = static_cast<uint8_t>(flg5 * wrap_at + g[goff + 5]);
      const uint8_t g6 = static_cast<uint8_t>(flg6 * wrap_at + g[goff + 6]);
      const uint8_t g7 = static_cast<uint8_t>(flg7 * wrap_at + g[goff + 7]);

      skey[skoff + 0] = (g1 << 5) | g0;
      skey[skoff + 1] = (g3 << 7) | (g2 << 2) | (g1 >> 3);
      skey[skoff + 2] = (g4 << 4) | (g3 >> 1);
      skey[skoff + 3] = (g6 << 6) | (g5 << 1) | (g4 >> 4);
      skey[skoff + 4] = (g7 << 3) | (g6 >> 2);""", """      (void)flg0; (void)flg1; (void)flg2; (void)flg3; (void)flg4; (void)flg5; (void)flg6; (void)flg7;
      uint64_t w = 0;
      for (size_t j = 8; j-- > 0;) {
        w = w * 32 + (static_cast<uint32_t>(g[goff + j]) & 31u);
      }
      std::memcpy(skey + skoff, &w, 5);""")
dd("decoding", """  // each coefficient must be a canonical element of Z_q
  bool failed = false;
  for (size_t i = 0; i < N; i++) {
    failed |= h[i].v >= ff::Q;
  }
""", """  // each coefficient must be a canonical element of Z_q
  const bool failed = std::any_of(h, h + N, [](const ff::ff_t& e) { return e.v >= ff::Q; });
""")
dd("decoding", """    h[hoff + 0].v = (static_cast<uint16_t>(pkey[pkoff + 1] & mask6) << 8) |
                    (static_cast<uint16_t>(pkey[pkoff + 0]) << 0);
    h[hoff + 1].v = (static_cast<uint16_t>(pkey[pkoff + 3] & mask4) << 10) |
                    (static_cast<uint16_t>(pkey[pkoff + 2]) << 2) |
                    (static_cast<uint16_t>(pkey[pkoff + 1] >> 6) << 0);
    h[hoff + 2].v = (static_cast<uint16_t>(pkey[pkoff + 5] & mask2) << 12) |
                    (static_cast<uint16_t>(pkey[pkoff + 4]) << 4) |
                    (static_cast<uint16_t>(pkey[pkoff + 3] >> 4) << 0);
    h[hoff + 3].v = (static_cast<uint16_t>(pkey[pkoff + 6]) << 6) |
                    (static_cast<uint16_t>(pkey[pkoff + 5] >> 2) << 0);
""", """    (void)mask6; (void)mask4; (void)mask2;
    uint64_t w = 0;
    std::memcpy(&w, pkey + pkoff, 7);
    for (size_t j = 0; j < 4; j++, w >>= 14) {
      h[hoff + j].v = static_cast<uint16_t>(w & 0x3fff);
    }
""")
dd("decoding", """  while ((coeff_idx < N) && (bit_idx + 8 < slen)) {
    int32_t coeff = 0;
    uint8_t sign_bit = 0;
""", """  std::array<int32_t, N> out{};
  while ((coeff_idx < N) && (bit_idx + 8 < slen)) {
    int32_t coeff = 0;
    uint8_t sign_bit = 0;
""")
dd("decoding", """    poly_s[coeff_idx] = coeff;
""", """    out[coeff_idx] = coeff;
""")
dd("decoding", """  std::memset(poly_s, 0, sizeof(int32_t) * N * failed);
  return !failed;""", """  for (size_t i = 0; i < N; i++) {
    poly_s[i] = failed ? 0 : out[i];
  }
  return !failed;""")
dd("hashing", """  uint8_t buf[shake256::rate >> 3];
""", """  std::array<uint8_t, 136> buf;
""")
dd("hashing", "hasher.read(buf, sizeof(buf));", "hasher.read(buf.data(), buf.size());")
dd("hashing", "(off < sizeof(buf)) &&", "(off < buf.size()) &&")
dd("signing", """  fft::cmplx z0[N];
  fft::cmplx z1[N];
  fft::cmplx tz0[N];
  fft::cmplx tz1[N];
""", """  std::vector<fft::cmplx> z0v(N);
  std::vector<fft::cmplx> z1v(N);
  fft::cmplx* const z0 = z0v.data();
  fft::cmplx* const z1 = z1v.data();
  fft::cmplx tz0[N];
  fft::cmplx tz1[N];
""")
dd("signing", """    const double sq_norm0 = ntru_gen::sqrd_norm<log2<N>()>(s0);
    const double sq_norm1 = ntru_gen::sqrd_norm<log2<N>()>(s1);
    const double sq_norm = sq_norm0 + sq_norm1;

    // check ∥s∥2 > ⌊β2⌋
    if (sq_norm <= β2_) {""", """    double sq_norm = 0.;
    for (const fft::cmplx* const v : { s0, s1 }) {
      sq_norm += ntru_gen::sqrd_norm<log2<N>()>(v);
    }

    // check ∥s∥2 > ⌊β2⌋
    if (!(sq_norm > β2_)) {""")
dd("verification", """  int32_t normalized_s1[N];

  for (size_t i = 0; i < N; i++) {
    const bool flg = s1[i].v > qby2;
    const auto t0 = static_cast<int32_t>(s1[i].v);
    const auto t1 = static_cast<int32_t>(flg * ff::Q);

    normalized_s1[i] = t0 - t1;
  }
""", """  std::array<int32_t, N> normalized_s1;
  std::transform(s1, s1 + N, normalized_s1.begin(), [](const ff::ff_t& e) {
    return e.v <= qby2 ? int32_t(e.v) : int32_t(e.v) - int32_t(ff::Q);
  });
""")
dd("verification", """  for (size_t i = 0; i < N; i++) {
    sqrd_norm += static_cast<int64_t>(s2[i]) * s2[i];
  }
""", """  sqrd_norm = std::accumulate(s2, s2 + N, int64_t{ 0 }, [](const int64_t a, const int32_t e) {
    return a + static_cast<int64_t>(e) * e;
  });
""")
dd("verification", """#pragma once
""", """#pragma once
#include <array>
#include <numeric>
#include <algorithm>
""")
dd("ntru_gen", """  double tmp0[N];
  double tmp1[N];

  for (size_t i = 0; i < N; i++) {
    tmp0[i] = static_cast<double>(f[i]);
    tmp1[i] = static_cast<double>(g[i]);
  }
""", """  std::vector<double> v0(f, f + N);
  std::vector<double> v1(g, g + N);
  const double* const tmp0 = v0.data();
  const double* const tmp1 = v1.data();
""")
dd("ntru_gen", "#pragma once\n", "#pragma once\n#include <vector>\n#include <numeric>\n")
dd("ntru_gen", """  fft::cmplx res{};

  for (size_t i = 0; i < N; i++) {
    res += poly[i] * std::conj(poly[i]);
  }

  return std::real(res) / N_;""", """  double res = 0.;

  for (size_t i = 0; i < N; i++) {
    res += std::norm(poly[i]);
  }

  return res / N_;""")
dd("ntru_gen", """  for (size_t i = 0; i < N; i++) {
    res += poly[i] * poly[i];
  }

  return res;""", """  res = std::inner_product(poly, poly + N, poly, 0.);

  return res;""")
dd("ntru_gen", """    for (size_t i = 0; i < N; i++) {
      f_[i] = mpz_class(f[i]);
      g_[i] = mpz_class(g[i]);
    }
""", """    std::copy(f, f + N, f_.begin());
    std::copy(g, g + N, g_.begin());
""")
dd("ntru_gen", """    for (size_t i = 0; i < N; i++) {
      F[i] = static_cast<int32_t>(ret.first.first[i].get_si());
      G[i] = static_cast<int32_t>(ret.first.second[i].get_si());
    }
""", """    const auto narrow = [](const mpz_class& v) { return static_cast<int32_t>(v.get_si()); };
    std::transform(ret.first.first.begin(), ret.first.first.end(), F, narrow);
    std::transform(ret.first.second.begin(), ret.first.second.end(), G, narrow);
""")
dd("ntru_gen", """  mpz_class min(arr[0]);
  mpz_class max(arr[0]);

  for (size_t i = 1; i < N; i++) {
    if (min > arr[i]) {
      min = arr[i];
    }
    if (max < arr[i]) {
      max = arr[i];
    }
  }

  return { min, max };""", """  size_t lo = 0;
  size_t hi = 0;
  for (size_t i = 1; i < N; i++) {
    lo = arr[i] < arr[lo] ? i : lo;
    hi = arr[i] > arr[hi] ? i : hi;
  }

  return { arr[lo], arr[hi] };""")
dd("ntru_gen", """    const size_t blen1 = std::max(
      53ul,
      std::max(
        std::max(approx_bit_len(Fmm.first), approx_bit_len(Fmm.second)),
        std::max(approx_bit_len(Gmm.first), approx_bit_len(Gmm.second))));
""", """    const size_t blen1 = std::max({ size_t{ 53 },
                                    approx_bit_len(Fmm.first),
                                    approx_bit_len(Fmm.second),
                                    approx_bit_len(Gmm.first),
                                    approx_bit_len(Gmm.second) });
""")
dd("samplerz", """  uint32_t z0 = 0u;
  for (size_t i = 0; i < 18; i++) {
    z0 = z0 + 1u * (u < RCDT[i]);
  }

  return z0;
}

// """, """  return static_cast<uint32_t>(std::count_if(RCDT, RCDT + 18, [&u](const u72::u72_t& e) { return u < e; }));
}

// """)
dd("samplerz", """  return ((v.first & mask) << 1) | (v.second >> 63);""", """  return (((v.first << 1) | (v.second >> 63)) & ((mask << 1) | 1ul));""")
dd("samplerz", """  const uint64_t t0 = lo >> 32;
  const uint64_t t1 = t0 + mid0_lo + mid1_lo;
  const uint64_t carry = t1 >> 32;

  const uint64_t res_hi = hi + mid0_hi + mid1_hi + carry;
  const uint64_t res_lo = lo + (mid0_lo << 32) + (mid1_lo << 32);

  return std::make_pair(res_hi, res_lo);
""", """  (void)hi; (void)mid0_hi; (void)mid0_lo; (void)mid1_hi; (void)mid1_lo; (void)lo;
  const unsigned __int128 w = static_cast<unsigned __int128>(lhs) * rhs;

  return { static_cast<uint64_t>(w >> 64), static_cast<uint64_t>(w) };
""")
dd("keygen", """  ff::ff_t f_[N];
  ff::ff_t g_[N];
""", """  std::array<ff::ff_t, N> fa;
  std::array<ff::ff_t, N> ga;
  auto* const f_ = fa.data();
  auto* const g_ = ga.data();
""")
dd("keygen", """  fft::cmplx gram_matrix[2 * 2 * N];
  compute_gram_matrix<N>(B, gram_matrix);

  falcon_tree::ffldl<N, 0, log2<N>()>(gram_matrix, T);""", """  auto gram_matrix = std::make_unique<fft::cmplx[]>(4 * N);
  compute_gram_matrix<N>(B, gram_matrix.get());

  falcon_tree::ffldl<N, 0, log2<N>()>(gram_matrix.get(), T);""")
dd("keygen", "#pragma once\n", "#pragma once\n#include <memory>\n")
dd("falcon", """  fft::cmplx gram_matrix[2 * 2 * N];
  keygen::compute_gram_matrix<N>(B, gram_matrix);

  falcon_tree::ffldl<N, 0, log2<N>()>(gram_matrix, T);""", """  std::vector<fft::cmplx> gram_matrix(2 * 2 * N);
  keygen::compute_gram_matrix<N>(B, gram_matrix.data());

  falcon_tree::ffldl<N, 0, log2<N>()>(gram_matrix.data(), T);""")
dd("falcon", "#pragma once\n", "#pragma once\n#include <vector>\n#include <memory>\n")
dd("falcon", """  fft::cmplx B[2 * 2 * N];
  fft::cmplx T[(1ul << log2<N>()) * (log2<N>() + 1)];
  prng::prng_t rng;
""", """  std::vector<fft::cmplx> Bv(2 * 2 * N);
  std::vector<fft::cmplx> Tv((1ul << log2<N>()) * (log2<N>() + 1));
  fft::cmplx* const B = Bv.data();
  fft::cmplx* const T = Tv.data();
  prng::prng_t rng;
""")
dd("falcon_tree", """    std::memcpy(G0, d00, sizeof(d00));
    std::memcpy(G0 + (N / 2), d01, sizeof(d01));
    std::memcpy(G0 + N, d01, sizeof(d01));
    std::memcpy(G0 + N + (N / 2), d00, sizeof(d00));
    fft::adj_poly<log2<N>()>(G0 + N);

    std::memcpy(G1, d10, sizeof(d10));
    std::memcpy(G1 + (N / 2), d11, sizeof(d11));
    std::memcpy(G1 + N, d11, sizeof(d11));
    std::memcpy(G1 + N + (N / 2), d10, sizeof(d10));
    fft::adj_poly<log2<N>()>(G1 + N);
""", """    const auto quad = [](const fft::cmplx* const a, const fft::cmplx* const b, fft::cmplx* const G) {
      constexpr size_t h = N / 2;
      for (size_t i = 0; i < h; i++) {
        G[i] = a[i];
        G[h + i] = b[i];
        G[2 * h + i] = std::conj(b[i]);
        G[3 * h + i] = a[i];
      }
    };
    quad(d00, d01, G0);
    quad(d10, d11, G1);
""")
dd("ffsampling", """    const double σ_prime = T[0].real();
    const auto z0_ = samplerz::samplerz(t0[0].real(), σ_prime, σ_min, rng);
    const auto z1_ = samplerz::samplerz(t1[0].real(), σ_prime, σ_min, rng);

    z0[0] = fft::cmplx{ static_cast<double>(z0_) };
    z1[0] = fft::cmplx{ static_cast<double>(z1_) };
""", """    const auto draw = [&](const fft::cmplx& t) -> fft::cmplx {
      return static_cast<double>(samplerz::samplerz(t.real(), T->real(), σ_min, rng));
    };
    *z1 = draw(*t1);
    *z0 = draw(*t0);
""")
dd("fft", """    f[2 * i + 0] = f0[i] + f1[i] * ζ_exp;
""", """    const cmplx prod = f1[i] * ζ_exp;
    f[2 * i + 0] = f0[i] + prod;
""")
dd("karatsuba", """    std::array<mpz_class, 2 * N> polyab{};
""", """    std::array<mpz_class, 2 * N> polyab;
""")
dd("u72", """    const uint64_t lo = this->lo + rhs.lo;
    const bool flg = this->lo > UINT64_MAX - rhs.lo;
    const uint64_t hi = (this->hi + rhs.hi + flg * 1ul) & 0xfful;
""", """    uint64_t lo = 0;
    const bool flg = __builtin_add_overflow(this->lo, rhs.lo, &lo);
    const uint64_t hi = static_cast<uint8_t>(this->hi + rhs.hi + (flg ? 1 : 0));
""")
dd("u72", """    for (size_t i = 0; i < 8; i++) {
      lo |= static_cast<uint64_t>(bytes[i]) << (i * 8);
    }
""", """    if (std::is_constant_evaluated()) {
      for (size_t i = 0; i < 8; i++) {
        lo |= static_cast<uint64_t>(bytes[i]) << (i * 8);
      }
    } else {
      std::memcpy(&lo, bytes.data(), 8);
    }
""")
dd("u72", "#pragma once\n", "#pragma once\n#include <cstring>\n#include <type_traits>\n")
dd("polynomial", """  for (size_t i = 0; i < n; i++) {
    polya[i] += polyb[i];
  }
}
""", """  std::transform(polya, polya + n, polyb, polya, std::plus<>{});
}
""")
dd("polynomial", "#pragma once\n", "#pragma once\n#include <algorithm>\n#include <functional>\n")

if __name__ == "__main__":
    which, out = sys.argv[1:3]
    only = sys.argv[3].split(",") if len(sys.argv) > 3 else None
    shutil.rmtree(out + "/include", ignore_errors=True)
    shutil.copytree("/repo/include", out + "/include")
    for fn, old, new in E[which]:
        if only and fn[:-4] not in only:
            continue
        p = out + "/include/" + fn
        s = open(p).read()
        if old not in s:
            print("DOES NOT APPLY", fn, old[:300])
            continue
        open(p, "w").write(s.replace(old, new, 1))

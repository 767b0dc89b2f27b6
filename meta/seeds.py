"""Planted bugs (laid out and confirmed by tools/plant.py)."""
S = []


def s(sid, prop, edits, demo, needs, breaks, **kw):
    S.append(dict(id=sid, prop=prop, edits=edits, demo=demo.lstrip("\n"), needs=needs, breaks=breaks, **kw))


s("ff_add_assign_q", "P27",
  [("ff.hpp", "    const bool flg = t0 >= Q;\n    const uint16_t t1 = t0 - flg * Q;\n\n    this->v = t1;", "    const bool flg = t0 > Q;\n    const uint16_t t1 = t0 - flg * Q;\n\n    this->v = t1;")],
  r'''
#include "ff.hpp"
int main() {
  for (int a = 0; a < ff::Q; a++) {
    ff::ff_t x{ (uint16_t)a };
    x += ff::ff_t{ (uint16_t)((ff::Q - a) % ff::Q) };
    if (x != ff::ff_t::zero() || x.v != 0) return 1;
  }
}
''', "two operands of a compound addition that add up to exactly q", "compound addition leaves the non-canonical value q, which does not compare equal to zero")

s("u72_carry_edge", "P26",
  [("u72.hpp", "    const bool flg = this->lo < rhs.lo;\n", "    const bool flg = this->lo <= rhs.lo && this->hi != rhs.hi;\n")],
  r'''
#include "u72.hpp"
using u72::u72_t;
static bool is(const u72_t& a, uint64_t hi, uint64_t lo) { return a.hi == hi && a.lo == lo; }
int main() {
  if (!is(u72_t{ 5, 7 } - u72_t{ 3, 7 }, 2, 0)) return 1;
  if (!is(u72_t{ 5, 3 } - u72_t{ 5, 7 }, 0xff, (uint64_t)-4)) return 2;
  if (!is(u72_t{ 5, 3 } - u72_t{ 1, 7 }, 3, (uint64_t)-4)) return 3;
}
''', "low limbs equal (or equal high limbs with a borrow)", "72-bit subtraction borrows although nothing has to be borrowed")

s("skey_dec_g1024", "P02",
  [("decoding.hpp", "      int32_t g6 = ((skey[skoff + 4] & mask3) << 2) | (skey[skoff + 3] >> 6);", "      int32_t g6 = ((skey[skoff + 4] & mask2) << 2) | (skey[skoff + 3] >> 6);")],
  r'''
#include "decoding.hpp"
#include "encoding.hpp"
int main() {
  static int32_t f[1024], g[1024], F[1024], f2[1024], g2[1024], F2[1024];
  static uint8_t sk[falcon_utils::compute_skey_len<1024>()];
  for (int v = -15; v <= 15; v++) {
    for (int i = 0; i < 1024; i++) { f[i] = v; g[i] = (v + i) % 16; F[i] = 8 * v + i % 8; }
    for (int i = 0; i < 1024; i++) if (F[i] < -127) F[i] = 0;
    encoding::encode_skey<1024>(f, g, F, sk);
    if (!decoding::decode_skey<1024>(sk, f2, g2, F2)) return 1;
    for (int i = 0; i < 1024; i++) if (f[i] != f2[i] || g[i] != g2[i] || F[i] != F2[i]) return 2;
  }
}
''', "a Falcon-1024 key whose polynomial g has a negative coefficient at an index that is 6 modulo 8", "negative coefficients of g at these positions are decoded as positive ones")

s("sig_header_bits", "P03",
  [("decoding.hpp", "  if (sig[0] != header) [[unlikely]] {", "  if ((sig[0] & 0x3f) != header) [[unlikely]] {")],
  r'''
#include "decoding.hpp"
#include "encoding.hpp"
int main() {
  static int32_t s[512], s2[512];
  static uint8_t sig[666], salt[40];
  if (!encoding::compress_sig<512, 666>(s, sig)) return 3;
  for (int h = 0; h < 256; h++) {
    sig[0] = h;
    if (decoding::decode_sig<512>(sig, salt, s2) != (h == 0x39)) return 1;
  }
}
''', "a signature whose header byte has one of its two top bits set", "signatures with a wrong header byte are accepted, so one signature has four encodings")

s("ntt_sum_bound", "P08",
  [("ntt.hpp", "        poly[i] += tmp;\n", "        const uint32_t sum = static_cast<uint32_t>(poly[i].v) + tmp.v;\n        poly[i].v = static_cast<uint16_t>(sum - ((sum >= ff::Q) & (sum < 2u * (ff::Q - 1))) * ff::Q);\n")],
  r'''
#include "ntt.hpp"
#include <cstring>
int main() {
  for (int v = 0; v < ff::Q; v++) {
    ff::ff_t f[512]{}, g[512];
    f[0] = ff::ff_t{ (uint16_t)(ff::Q - 1) };
    f[256] = ff::ff_t{ (uint16_t)v };
    std::memcpy((void*)g, f, sizeof f);
    ntt::ntt<9>(g);
    for (auto& x : g) if (x.v >= ff::Q) return 1;
    ntt::intt<9>(g);
    for (int i = 0; i < 512; i++) if (g[i].v != f[i].v) return 2;
  }
}
''', "a butterfly both of whose operands are q-1", "the transform's output is not canonical for such polynomials")

s("split_conj_pair", "P09",
  [("fft.hpp", "    f1[i] = 0.5 * (f[2 * i] - f[2 * i + 1]) * std::conj(ζ_exp);", "    f1[i] = 0.5 * (f[2 * i] - f[2 * i + 1]) / (LOG2N > 1 ? ζ_exp : ζ_exp * ζ_exp * ζ_exp);")],
  r'''
#include "fft.hpp"
#include <cstdio>
template<size_t L> static int t() {
  constexpr size_t N = 1 << L;
  static fft::cmplx f[N], a[N], b[N], x[N], y[N];
  for (size_t i = 0; i < N; i++) { f[i] = (double)(i * i % 13) - 6; (i & 1 ? b : a)[i / 2] = f[i]; }
  fft::fft<L>(f);
  if constexpr (L > 1) { fft::fft<L - 1>(a); fft::fft<L - 1>(b); }
  fft::split_fft<L>(f, x, y);
  for (size_t i = 0; i < N / 2; i++) if (std::abs(x[i] - a[i]) + std::abs(y[i] - b[i]) > 1e-6) return 1;
  return 0;
}
int main() { return t<1>() + t<2>() + t<3>() + t<8>() + t<10>(); }
''', "splitting a polynomial with two coefficients, the last level of the Falcon tree", "the odd coefficient comes out negated")

E2E = r'''
#include "falcon.hpp"
#include <vector>
template<size_t N> struct Key {
  std::vector<uint8_t> pk, sk, sig;
  Key() : pk(falcon_utils::compute_pkey_len<N>()), sk(falcon_utils::compute_skey_len<N>()), sig(falcon_utils::compute_sig_len<N>()) {
    falcon::keygen<N>(pk.data(), sk.data());
  }
};
'''

s("verify_long_msg", "P07",
  [("verification.hpp", "hashing::hash_to_point<N>(salt, sizeof(salt), msg, mlen, c);", "hashing::hash_to_point<N>(\n    salt, sizeof(salt), msg, static_cast<uint16_t>(mlen), c);")],
  E2E + r'''
int main() {
  Key<512> k;
  std::vector<uint8_t> m(70000, 7);
  if (!falcon::sign<512>(k.sk.data(), m.data(), m.size(), k.sig.data())) return 2;
  return !falcon::verify<512>(k.pk.data(), m.data(), m.size(), k.sig.data());
}
''', "a message of 65536 bytes or more", "only the length modulo 2^16 of the message is hashed during verification")

LOADKEY = E2E + r'''
template<size_t N> struct Loaded : Key<N> {
  static constexpr size_t L = N == 512 ? 9 : 10;
  std::vector<int32_t> f, g, F, G;
  std::vector<fft::cmplx> B, T;
  Loaded() : f(N), g(N), F(N), G(N), B(4 * N), T(N * (L + 1)) {
    if (!decoding::decode_skey<N>(this->sk.data(), f.data(), g.data(), F.data())) std::abort();
    falcon::recompute_G<N>(f.data(), g.data(), F.data(), G.data());
    falcon::compute_matrix_B<N>(f.data(), g.data(), F.data(), G.data(), B.data());
    falcon::compute_falcon_tree<N>(B.data(), T.data());
  }
};
'''

s("sign_stale_short", "P10",
  [("signing.hpp", "  while (1) {\n", "  bool is_short = false;\n  while (!is_short || sig[0] != header) {\n    sig[0] = 0;\n"),
   ("signing.hpp", "    if (sq_norm <= β2_) {\n", "    is_short |= sq_norm <= β2_;\n    if (is_short) {\n"),
   ("signing.hpp", "      if (compressed) {\n        break;\n      }\n", "      sig[0] = compressed ? header : 0;\n")],
  LOADKEY + r'''
int main() {
  Loaded<512> k;
  // a slightly wider sampler makes long candidates and candidates that do not fit frequent
  for (size_t i = 9 * 512; i < 10 * 512; i++) k.T[i] = std::min(1.82, k.T[i].real() * 1.13);
  prng::prng_t rng;
  uint8_t m[4] = {};
  for (int i = 0; i < 20000; i++) {
    m[0] = i; m[1] = i >> 8;
    falcon::sign<512>(k.B.data(), k.T.data(), m, sizeof m, k.sig.data(), rng);
    if (!falcon::verify<512>(k.pk.data(), m, sizeof m, k.sig.data())) return 1;
  }
}
''', "a candidate that is short but does not fit the signature, followed by one that is too long", "the too long candidate is emitted as signature, because the outcome of the norm test outlives its attempt", flags="-O2")

s("sign_sigma_min_1024", "P11",
  [("falcon.hpp", "  constexpr double σ_min = σ_min_values[N == 1024];\n\n  signing", "  constexpr double σ_min = σ_min_values[N > 1024];\n\n  signing")],
  r'''
#include "samplerz.hpp"
#include <cmath>
#include <vector>
static double seen = 0;
namespace probe {
using namespace samplerz;
template<class... A> static inline int32_t probe(double mu, double s, double smin, A&... a) { seen = smin; return samplerz::samplerz(mu, s, smin, a...); }
}
#define samplerz probe
#include "falcon.hpp"
#undef samplerz
template<size_t N> static double used() {
  constexpr size_t L = N == 512 ? 9 : 10;
  static uint8_t pk[falcon_utils::compute_pkey_len<N>()], sk[falcon_utils::compute_skey_len<N>()], sig[falcon_utils::compute_sig_len<N>()], m[3];
  falcon::keygen<N>(pk, sk);
  falcon::sign<N>(sk, m, sizeof m, sig);
  return seen;
}
int main() {
  if (std::abs(used<512>() - 1.277833697) > 1e-9) return 1;
  if (std::abs(used<1024>() - 1.298280334) > 1e-9) return 2;
}
''', "signing with Falcon-1024", "the Falcon-1024 sampler is run with the lower bound of the standard deviation of Falcon-512")

s("tree_sigma_1024", "P12",
  [("falcon.hpp", "  constexpr double σ_values[]{ 165.736617183, 168.388571447 };\n  constexpr double σ = σ_values[N == 1024];", "  constexpr double σ_values[]{ 165.736617183, 168.388571447 };\n  constexpr double σ = σ_values[N / 1025];")],
  r'''
#include "falcon.hpp"
#include <vector>
template<size_t N> static bool is(double s) {
  constexpr size_t L = N == 512 ? 9 : 10;
  std::vector<fft::cmplx> B(4 * N), T(N * (L + 1));
  for (size_t i = 0; i < N; i++) B[i] = B[3 * N + i] = 1;
  falcon::compute_falcon_tree<N>(B.data(), T.data());
  for (size_t i = L * N; i < (L + 1) * N; i++) if (std::abs(T[i].real() - s) > 1e-6) return false;
  return true;
}
int main() { return !is<512>(165.736617183) || !is<1024>(168.388571447); }
''', "building the tree of a Falcon-1024 key", "the leaves of Falcon-1024 trees are too small, so signatures are sampled with a lower deviation than the parameter set's")

s("ldl_root_adjoint", "P18",
  [("falcon_tree.hpp", "    fft::adj_poly<log2<N>()>(G1 + N);\n", "    if constexpr (N < (1ul << T_HEIGHT)) {\n      fft::adj_poly<log2<N>()>(G1 + N);\n    }\n")],
  r'''
#include "falcon_tree.hpp"
#include <cmath>
using cx = fft::cmplx;
int main() {
  // the second child of the root, against the decomposition done by hand
  constexpr size_t N = 8, L = 3;
  cx b[2][N], G[4 * N], T[N * (L + 1)], D[N], e[N / 2], o[N / 2], H[2 * N];
  for (size_t j = 0; j < 2; j++) { for (size_t i = 0; i < N; i++) b[j][i] = double((i * 7 + j * 5) % 11) - 4.0 + (i == 0) * 9; fft::fft<L>(b[j]); }
  for (size_t i = 0; i < N; i++) {
    G[i] = std::norm(b[0][i]) + 1.; G[N + i] = std::conj(b[0][i]) * b[1][i]; G[2 * N + i] = std::conj(G[N + i]); G[3 * N + i] = std::norm(b[1][i]) + 2.;
    D[i] = G[3 * N + i] - std::norm(G[2 * N + i]) / G[i].real();
  }
  falcon_tree::ffldl<N, 0, L>(G, T);
  fft::split_fft<L>(D, e, o);
  for (size_t i = 0; i < N / 2; i++) if (std::abs(T[N + N / 2 + i] - std::conj(o[i]) / e[i]) > 1e-6) return 1;
  for (size_t i = 0; i < N; i++) D[i] = G[i];
  fft::split_fft<L>(D, e, o);
  for (size_t i = 0; i < N / 2; i++) if (std::abs(T[N + i] - std::conj(o[i]) / e[i]) > 1e-6) return 2;
}
''', "the right subtree of the root only, whose coefficients are small", "the right half of the Falcon tree is decomposed from a matrix that is not self-adjoint, so signatures are not sampled from the right distribution")

s("ffs_conj_level2", "P19",
  [("ffsampling.hpp", "    polynomial::mul<log2<N>()>(tmp0, l, tmp1);\n", "    polynomial::mul<log2<N>()>(tmp0, l, tmp1);\n    if constexpr (N == 4) {\n      tmp1[N - 1] = tmp0[N - 1] * std::conj(l[N - 1]);\n    }\n")],
  r'''
#include "ffsampling.hpp"
using cx = fft::cmplx;
template<size_t N, size_t L> static void ref(const cx* t0, const cx* t1, const cx* T, size_t n, cx* z0, cx* z1, prng::prng_t& rng) {
  if constexpr (N == 1) {
    z0[0] = samplerz::samplerz(t0[0].real(), T[0].real(), 1.2, rng);
    z1[0] = samplerz::samplerz(t1[0].real(), T[0].real(), 1.2, rng);
  } else {
    cx a[N / 2], b[N / 2], c[N / 2], d[N / 2], t[N];
    fft::split_fft<L>(t1, a, b);
    ref<N / 2, L - 1>(a, b, T + n + N / 2, n, c, d, rng);
    fft::merge_fft<L>(c, d, z1);
    for (size_t i = 0; i < N; i++) t[i] = t0[i] + (t1[i] - z1[i]) * T[i];
    fft::split_fft<L>(t, a, b);
    ref<N / 2, L - 1>(a, b, T + n, n, c, d, rng);
    fft::merge_fft<L>(c, d, z0);
  }
}
int main() {
  constexpr size_t N = 8, L = 3;
  prng::prng_t r;
  cx T[N * (L + 1)], t0[N], t1[N], z0[N], z1[N], y0[N], y1[N];
  for (int k = 0; k < 50; k++) {
    for (size_t i = 0; i < N * L; i++) T[i] = cx{ double((i * 5 + k) % 7) - 3., double((i * 3 + k) % 5) - 2. };
    for (size_t i = N * L; i < N * (L + 1); i++) T[i] = 1.3 + 0.05 * (i % 7);
    for (size_t i = 0; i < N; i++) { t0[i] = double((i * k) % 13); t1[i] = 0.37 * double((i + k) % 9); }
    fft::fft<L>(t0); fft::fft<L>(t1);
    prng::prng_t s = r;
    ffsampling::ff_sampling<N, 0, L>(t0, t1, T, 1.2, z0, z1, r);
    ref<N, L>(t0, t1, T, N, y0, y1, s);
    for (size_t i = 0; i < N; i++) if (std::abs(z0[i] - y0[i]) + std::abs(z1[i] - y1[i]) > 1e-6) return 1;
  }
}
''', "the level with 4 coefficients of the recursion, one coefficient of which uses the conjugate of L10", "one conditional centre is wrong: still a valid lattice point, but not distributed as the scheme requires")

s("hash_edge_candidate", "P13",
  [("hashing.hpp", "      if (t < kq) {\n", "      if (t <= kq) {\n")],
  r'''
#include "hashing.hpp"
#include <vector>
template<size_t n> static bool ok(uint32_t k) {
  uint8_t salt[40] = {}, msg[4] = { uint8_t(k), uint8_t(k >> 8), uint8_t(k >> 16), n == 512 };
  ff::ff_t poly[n];
  hashing::hash_to_point<n>(salt, sizeof salt, msg, sizeof msg, poly);
  shake256::shake256<true> h{};
  h.absorb(salt, sizeof salt);
  h.absorb(msg, sizeof msg);
  h.finalize();
  for (size_t i = 0; i < n;) {
    uint8_t b[2];
    h.read(b, 2);
    const uint32_t t = b[0] * 256u + b[1];
    if (t >= 61445) continue;
    if (poly[i++].v != t % 12289) return false;
  }
  return true;
}
int main() {
  for (uint32_t k = 0; k < 3000; k++) if (!ok<512>(k) || !ok<1024>(k)) return 1;
}
''', "a hash output that contains the 16-bit candidate 61445, one message in about a hundred", "that candidate is not rejected: the point differs from the one every other implementation hashes to", flags="-O2")

s("prng_seed_pairs", "P16",
  [("prng.hpp", "    uint8_t seed[32];\n    for (size_t i = 0; i < sizeof(seed); i++) {\n      seed[i] = static_cast<uint8_t>(rd());\n    }\n",
    "    uint8_t seed[32];\n    for (size_t i = 0; i < sizeof(seed); i += 2) {\n      const uint32_t word = rd();\n      seed[i] = static_cast<uint8_t>(word);\n      seed[i + 1] = static_cast<uint8_t>(word >> (i & 8));\n    }\n")],
  r'''
#include <cstdint>
#include <cstddef>
#include <map>
static uint8_t last[64];
static size_t len;
namespace shake256 {
template<bool inc> struct shake256 {
  void hash(const uint8_t* p, size_t n) { len = n; for (size_t i = 0; i < n && i < 64; i++) last[i] = p[i]; }
  void read(uint8_t*, size_t) {}
};
}
#include "prng.hpp"
int main() {
  int same[32][32] = {};
  for (int k = 0; k < 64; k++) {
    prng::prng_t r;
    (void)r;
    if (len != 32) return 2;
    for (int i = 0; i < 32; i++) for (int j = 0; j < i; j++) same[i][j] += last[i] == last[j];
  }
  for (int i = 0; i < 32; i++) for (int j = 0; j < i; j++) if (same[i][j] > 32) return 1;
}
''', "nothing but looking at the seed: every generator is affected, its output looks uniform", "the generator is seeded with 192 bits of entropy instead of 256: half of the draws fill two seed bytes with the same bits", noshake=True)

s("ber_shift_wrap", "P17",
  [("samplerz.hpp", "  const uint64_t s_ = std::min<uint64_t>(static_cast<uint64_t>(s), 63ul);\n  const uint64_t z = (2 * approx_exp(r, ccs) - 1) >> s_;\n\n  int32_t w = 0;\n  int64_t i = 64l;\n  do {\n    i = i - 8l;\n\n    uint8_t t0;",
    "  const uint64_t s_ = static_cast<uint64_t>(s) & 63ul;\n  const uint64_t z = (2 * approx_exp(r, ccs) - 1) >> s_;\n\n  int32_t w = 0;\n  int64_t i = 64l;\n  do {\n    i = i - 8l;\n\n    uint8_t t0;")],
  r'''
#include "samplerz.hpp"
int main() {
  prng::prng_t r;
  for (int k = 0; k < 4000; k++) {
    // probability below 2^-60 each
    if (samplerz::ber_exp(44.4 + 0.01 * (k % 100), 0.75, r)) return 1;
    if (samplerz::ber_exp(89. + 0.01 * (k % 100), 0.75, r)) return 2;
  }
}
''', "an exponent of 64 ln 2 or more, reached for a far tail sample of the base distribution only", "samples that must practically never be accepted are accepted as if they were likely")

s("reduce_negative_stop", "P15",
  [("ntru_gen.hpp", "atleast_one_nonzero |= k_rounded[i] != 0;", "atleast_one_nonzero |= k_rounded[i] > 0;")],
  r'''
#include "ntru_gen.hpp"
template<size_t N> static bool ok(int c, size_t at) {
  std::array<mpz_class, N> f, g, F, G, k;
  for (size_t i = 0; i < N; i++) {
    f[i] = (int)(i * 7 % 11) - 5;
    g[i] = (int)(i * 5 % 13) - 6;
    k[i] = 0;
  }
  k[at] = c;
  F = karatsuba::karamul(f, k);
  G = karatsuba::karamul(g, k);
  F[0] += 1;
  ntru_gen::reduce<N>(f, g, F, G);
  mpz_class n = 0;
  for (size_t i = 0; i < N; i++) n += F[i] * F[i] + G[i] * G[i];
  return n <= 4;
}
int main() {
  for (int c : { 3, -3, 1000, -1000, 123456789, -123456789 })
    for (size_t at = 0; at < 8; at++)
      if (!ok<8>(c, at) || !ok<64>(c, at * 8)) return 1;
}
''', "a reduction step in which no coefficient of the quotient is positive", "reduction stops although F, G can be made shorter; the pair returned is not reduced")

s("cp_unary_byte", "P04",
  [("encoding.hpp", "const size_t k = std::abs(poly_s[coeff_idx]) >> 7;", "const uint8_t k = std::abs(poly_s[coeff_idx]) >> 7;")],
  r'''
#include "decoding.hpp"
#include "encoding.hpp"
int main() {
  static int32_t s[512], s2[512];
  static uint8_t sig[666];
  for (int at : { 0, 3, 200, 511 })
    for (int hi : { 0, 1, 3, 100, 254, 255, 256, 300, 390 })
      for (int sg : { 1, -1 }) {
        for (int i = 0; i < 512; i++) s[i] = i % 128;
        s[at] = sg * (128 * hi + 77);
        if (!encoding::compress_sig<512, 666>(s, sig)) return 1;
        if (!decoding::decompress_sig<512, 666>(sig, s2)) return 2;
        for (int i = 0; i < 512; i++) if (s[i] != s2[i]) return 3;
      }
}
''', "a coefficient of absolute value 2^15 or more in a polynomial that still fits", "the unary part of a coefficient's code is cut to 8 bits: another polynomial is encoded")

s("dc_trailing_first", "P05",
  [("decoding.hpp", "      bit_idx += ebits;\n      failed |= (v < ebits);", "      bit_idx += ebits;\n      failed = (v < ebits);")],
  r'''
#include "decoding.hpp"
#include "encoding.hpp"
int main() {
  static int32_t s[512], s2[512];
  static uint8_t sig[666];
  for (int i = 0; i < 512; i++) s[i] = (i % 128) * (i & 1 ? 1 : -1) + (i % 128 == 0);
  if (!encoding::compress_sig<512, 666>(s, sig)) return 1;
  if (!decoding::decompress_sig<512, 666>(sig, s2)) return 2;
  // the codes end after 4608 bits
  for (int b = 4608; b < 5000; b++) {
    sig[41 + b / 8] |= 0x80 >> b % 8;
    if (decoding::decompress_sig<512, 666>(sig, s2)) return 3;
    for (int i = 0; i < 512; i++) if (s2[i]) return 4;
    sig[41 + b / 8] ^= 0x80 >> b % 8;
  }
}
''', "a bit set behind the last code, but not in the last eight bits", "signatures are malleable: bits after the last code may be anything but in the last byte looked at")

s("inv_first_root", "P14",
  [("ntru_gen.hpp", "    flg &= tmp[i].v != 0;", "    flg = tmp[i].v != 0 && (flg || i == 1);")],
  r'''
#include "ntru_gen.hpp"
int main() {
  static ff::ff_t t[512];
  static int32_t f[512];
  for (int z = -1; z < 512; z++) {
    for (int i = 0; i < 512; i++) t[i].v = i == z ? 0 : 1 + i * 7 % 12000;
    ntt::intt<9>(t);
    for (int i = 0; i < 512; i++) f[i] = t[i].v > 6144 ? t[i].v - 12289 : t[i].v;
    if (ntru_gen::is_poly_invertible<9>(f) != (z < 0)) return 1;
  }
}
''', "a polynomial that is zero at the first root only (one in 12289)", "a key whose f is not invertible modulo q is accepted, the public key does not belong to it")

s("gs_norm_f_twice", "P14",
  [("ntru_gen.hpp", "polynomial::div<LOG2N>(g_adj, fxf_adj_gxg_adj, gt);", "polynomial::div<LOG2N>(f_adj, fxf_adj_gxg_adj, gt);")],
  r'''
#include "ntru_gen.hpp"
int main() {
  static int32_t f[512], g[512];
  const double q = 12289.;
  for (int a = 1; a < 8; a++)
    for (int b = 0; b < 8; b++) {
      f[0] = a;
      g[0] = b;
      const double n = a * a + b * b, want = q * q / n;
      const double x = ntru_gen::gram_schmidt_norm<9>(f, g);
      if (std::abs(x - want) > 1e-6 * want) return 1;
    }
}
''', "f and g of different size; for keys as generated the value is close to the right one", "the Gram-Schmidt norm of (f, g) is wrong by the difference of f and g: keys of too low quality are accepted")

s("keygen_sigma_512", "P20",
  [("keygen.hpp", "falcon_tree::normalize_tree<N, 0, log2<N>()>(T, σ);", "falcon_tree::normalize_tree<N, 0, log2<N>()>(T, N == 512 ? 165.736617183 : σ);")],
  r'''
#include "keygen.hpp"
constexpr size_t N = 512;
static fft::cmplx B[4 * N], G[4 * N], T[10 * N], U[10 * N];
static ff::ff_t h[N];
int main() {
  prng::prng_t rng;
  for (double sigma : { 165.736617183, 150., 200. }) {
    keygen::keygen<N>(B, T, h, sigma, rng);
    keygen::compute_gram_matrix<N>(B, G);
    falcon_tree::ffldl<N, 0, 9>(G, U);
    falcon_tree::normalize_tree<N, 0, 9>(U, sigma);
    for (size_t i = 0; i < 10 * N; i++)
      if (std::abs(T[i] - U[i]) > 1e-6 * (1 + std::abs(U[i]))) return 1;
  }
}
''', "Falcon-512 with a standard deviation other than the one of the table", "the tree returned is normalised with another standard deviation than the one asked for")

s("gram_static_scratch", "P21",
  [("keygen.hpp", "  fft::cmplx B_adj[N * 2 * 2];\n  fft::cmplx tmp[N];", "  static fft::cmplx B_adj[N * 2 * 2];\n  static fft::cmplx tmp[N];")],
  r'''
#include "keygen.hpp"
#include <atomic>
#include <memory>
#include <thread>
#include <vector>
constexpr size_t N = 512;
struct Job { fft::cmplx B[4 * N], G[4 * N], H[4 * N]; };
int main() {
  std::vector<std::unique_ptr<Job>> js;
  for (int t = 0; t < 4; t++) {
    js.push_back(std::make_unique<Job>());
    for (size_t i = 0; i < 4 * N; i++) js[t]->B[i] = { double((i * 7 + t * 13) % 101), double((i * 3 + t * 31) % 97) };
    keygen::compute_gram_matrix<N>(js[t]->B, js[t]->G);
  }
  std::atomic<int> bad = 0, ready = 0;
  std::vector<std::thread> th;
  for (int t = 0; t < 4; t++)
    th.emplace_back([&, t] {
      ready++;
      while (ready < 4) ;
      for (int k = 0; k < 4000 && !bad; k++) {
        keygen::compute_gram_matrix<N>(js[t]->B, js[t]->H);
        for (size_t i = 0; i < 4 * N; i++) if (js[t]->H[i] != js[t]->G[i]) bad = 1;
      }
    });
  for (auto& x : th) x.join();
  return bad;
}
''', "two threads that sign or generate keys at the same time", "threads overwrite each other's scratch memory: the Gram matrix, and so the tree, of another key is mixed in", flags="-O1 -pthread")

s("verify_masks_header", "P21",
  [("falcon.hpp", "  return verification::verify<N, β2>(h, msg, mlen, sig);", "  const bool ok = verification::verify<N, β2>(h, msg, mlen, sig);\n  if (!ok && mlen == 0) {\n    sig[0] = 0;\n  }\n  return ok;")],
  r'''
#include "falcon.hpp"
#include <cstring>
int main() {
  static uint8_t pk[897], sk[1281], sig[666], cp[666], msg[1];
  falcon::keygen<512>(pk, sk);
  for (size_t len : { 1, 0 }) {
    if (!falcon::sign<512>(sk, msg, len, sig)) return 1;
    if (!falcon::verify<512>(pk, msg, len, sig)) return 2;
    sig[60] ^= 4;
    std::memcpy(cp, sig, sizeof(sig));
    if (falcon::verify<512>(pk, msg, len, sig)) return 3;
    if (std::memcmp(cp, sig, sizeof(sig))) return 4;
  }
}
''', "an empty message with a signature that does not verify", "verification changes the caller's signature buffer")

s("compress_any_length", "P22",
  [("encoding.hpp", "  requires(((N == 512) && (sbytelen == 666)) ||\n           ((N == 1024) && (sbytelen == 1280)))", "  requires(((N == 512) || (N == 1024)) && ((sbytelen == 666) || (sbytelen == 1280)))")],
  r'''
#include "falcon.hpp"
template<size_t N, size_t L> concept Can = requires(const int32_t* s, uint8_t* b) { encoding::compress_sig<N, L>(s, b); };
int main() { return !Can<512, 666> || !Can<1024, 1280> || Can<512, 1280> || Can<1024, 666>; }
''', "a caller that mixes the length of one parameter set with the degree of the other", "compression of degree-512 polynomials into 1280 bytes compiles: bytes no verifier accepts, written past buffers of the right size")

// Analysis translation unit: takes the address of every public template of
// falcon, for every parameter set, so that the analyses see the resolved
// program (static inline templates are only emitted when used).
#include "falcon.hpp"
#include "falcon_tree.hpp"
#include "ffsampling.hpp"
#include "karatsuba.hpp"
#include "samplerz.hpp"
#include "u72.hpp"
#include "utils.hpp"

using u8 = uint8_t;
using cx = fft::cmplx;

extern "C" { extern void (*fl_keygen_512)(u8*, u8*); void (*fl_keygen_512)(u8*, u8*) = &falcon::keygen<512>; }
extern "C" { extern void (*fl_recompute_G_512)(const int32_t*, const int32_t*, const int32_t*, int32_t*); void (*fl_recompute_G_512)(const int32_t*, const int32_t*, const int32_t*, int32_t*) = &falcon::recompute_G<512>; }
extern "C" { extern void (*fl_compute_matrix_B_512)(const int32_t*, const int32_t*, const int32_t*, const int32_t*, cx*); void (*fl_compute_matrix_B_512)(const int32_t*, const int32_t*, const int32_t*, const int32_t*, cx*) = &falcon::compute_matrix_B<512>; }
extern "C" { extern void (*fl_compute_falcon_tree_512)(const cx*, cx*); void (*fl_compute_falcon_tree_512)(const cx*, cx*) = &falcon::compute_falcon_tree<512>; }
extern "C" { extern void (*fl_sign_many_512)(const cx*, const cx*, const u8*, size_t, u8*, prng::prng_t&); void (*fl_sign_many_512)(const cx*, const cx*, const u8*, size_t, u8*, prng::prng_t&) = &falcon::sign<512>; }
extern "C" { extern bool (*fl_sign_one_512)(const u8*, const u8*, size_t, u8*); bool (*fl_sign_one_512)(const u8*, const u8*, size_t, u8*) = &falcon::sign<512>; }
extern "C" { extern bool (*fl_verify_512)(const u8*, const u8*, size_t, u8*); bool (*fl_verify_512)(const u8*, const u8*, size_t, u8*) = &falcon::verify<512>; }
extern "C" { extern void (*fl_keygen_tree_512)(cx*, cx*, ff::ff_t*, double, prng::prng_t&); void (*fl_keygen_tree_512)(cx*, cx*, ff::ff_t*, double, prng::prng_t&) = &keygen::keygen<512>; }
extern "C" { extern void (*fl_keygen_1024)(u8*, u8*); void (*fl_keygen_1024)(u8*, u8*) = &falcon::keygen<1024>; }
extern "C" { extern void (*fl_recompute_G_1024)(const int32_t*, const int32_t*, const int32_t*, int32_t*); void (*fl_recompute_G_1024)(const int32_t*, const int32_t*, const int32_t*, int32_t*) = &falcon::recompute_G<1024>; }
extern "C" { extern void (*fl_compute_matrix_B_1024)(const int32_t*, const int32_t*, const int32_t*, const int32_t*, cx*); void (*fl_compute_matrix_B_1024)(const int32_t*, const int32_t*, const int32_t*, const int32_t*, cx*) = &falcon::compute_matrix_B<1024>; }
extern "C" { extern void (*fl_compute_falcon_tree_1024)(const cx*, cx*); void (*fl_compute_falcon_tree_1024)(const cx*, cx*) = &falcon::compute_falcon_tree<1024>; }
extern "C" { extern void (*fl_sign_many_1024)(const cx*, const cx*, const u8*, size_t, u8*, prng::prng_t&); void (*fl_sign_many_1024)(const cx*, const cx*, const u8*, size_t, u8*, prng::prng_t&) = &falcon::sign<1024>; }
extern "C" { extern bool (*fl_sign_one_1024)(const u8*, const u8*, size_t, u8*); bool (*fl_sign_one_1024)(const u8*, const u8*, size_t, u8*) = &falcon::sign<1024>; }
extern "C" { extern bool (*fl_verify_1024)(const u8*, const u8*, size_t, u8*); bool (*fl_verify_1024)(const u8*, const u8*, size_t, u8*) = &falcon::verify<1024>; }
extern "C" { extern void (*fl_keygen_tree_1024)(cx*, cx*, ff::ff_t*, double, prng::prng_t&); void (*fl_keygen_tree_1024)(cx*, cx*, ff::ff_t*, double, prng::prng_t&) = &keygen::keygen<1024>; }

extern "C" {
extern std::pair<int32_t, size_t> (*fl_samplerz_bytes)(double, double, double, const u8*, size_t);
std::pair<int32_t, size_t> (*fl_samplerz_bytes)(double, double, double, const u8*, size_t) = &samplerz::samplerz;
extern const std::string (*fl_to_hex)(const u8*, size_t);
const std::string (*fl_to_hex)(const u8*, size_t) = &to_hex;
extern void (*fl_to_byte_array)(const std::string&, u8*);
void (*fl_to_byte_array)(const std::string&, u8*) = &to_byte_array;
extern ff::ff_t (*fl_random)();
ff::ff_t (*fl_random)() = &ff::ff_t::random;
#define FF(n, r, ...) \
  extern r (ff::ff_t::*fl_ff_##n)(__VA_ARGS__) const; \
  r (ff::ff_t::*fl_ff_##n)(__VA_ARGS__) const
FF(add, ff::ff_t, const ff::ff_t&) = &ff::ff_t::operator+;
FF(sub, ff::ff_t, const ff::ff_t&) = &ff::ff_t::operator-;
FF(neg, ff::ff_t) = &ff::ff_t::operator-;
FF(mul, ff::ff_t, const ff::ff_t&) = &ff::ff_t::operator*;
FF(div, ff::ff_t, const ff::ff_t&) = &ff::ff_t::operator/;
FF(inv, ff::ff_t) = &ff::ff_t::inv;
FF(pow, ff::ff_t, size_t) = &ff::ff_t::operator^;
FF(eq, bool, const ff::ff_t&) = &ff::ff_t::operator==;
FF(ne, bool, const ff::ff_t&) = &ff::ff_t::operator!=;
FF(gt, bool, const ff::ff_t&) = &ff::ff_t::operator>;
FF(ge, bool, const ff::ff_t&) = &ff::ff_t::operator>=;
FF(lt, bool, const ff::ff_t&) = &ff::ff_t::operator<;
FF(le, bool, const ff::ff_t&) = &ff::ff_t::operator<=;
extern void (ff::ff_t::*fl_ff_addto)(const ff::ff_t&);
void (ff::ff_t::*fl_ff_addto)(const ff::ff_t&) = &ff::ff_t::operator+=;
extern void (ff::ff_t::*fl_ff_multo)(const ff::ff_t&);
void (ff::ff_t::*fl_ff_multo)(const ff::ff_t&) = &ff::ff_t::operator*=;
#define U72(n, r, ...) \
  extern r (u72::u72_t::*fl_u72_##n)(__VA_ARGS__) const; \
  r (u72::u72_t::*fl_u72_##n)(__VA_ARGS__) const
using U = u72::u72_t;
using A9 = std::array<uint8_t, 9>;
U72(add, U, const U&) = &U::operator+;
U72(sub, U, const U&) = &U::operator-;
U72(neg, U) = &U::operator-;
U72(gt, bool, const U&) = &U::operator>;
U72(lt, bool, const U&) = &U::operator<;
U72(to_be, A9) = &U::to_be_bytes;
U72(to_le, A9) = &U::to_le_bytes;
extern U (*fl_u72_from_be)(A9&&);
U (*fl_u72_from_be)(A9&&) = &U::from_be_bytes;
extern U (*fl_u72_from_le)(A9&&);
U (*fl_u72_from_le)(A9&&) = &U::from_le_bytes;
extern const size_t fl_lens[];
const size_t fl_lens[]{ falcon_utils::compute_pkey_len<512>(), falcon_utils::compute_pkey_len<1024>(),
                        falcon_utils::compute_skey_len<512>(), falcon_utils::compute_skey_len<1024>(),
                        falcon_utils::compute_sig_len<512>(),  falcon_utils::compute_sig_len<1024>() };
}

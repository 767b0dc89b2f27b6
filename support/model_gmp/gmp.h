// Model of the parts of GNU MP falcon may use, for the analyses only: an
// integer of any size is held in a double, which the analyses read as an exact
// real number.  What is no ring operation is an external call whose meaning
// the analyses know (falconlint/bigint.py).
#pragma once
#include <cstddef>
#include <cstdint>
#define FLI __attribute__((always_inline)) inline
extern "C" {
double fl_mpz_trunc(double);                  // towards zero
double fl_mpz_tdiv(double, double);           // quotient, towards zero
double fl_mpz_fdiv(double, double);           // quotient, towards minus infinity
double fl_mpz_fdiv2(double, unsigned long);   // arithmetic shift right
double fl_mpz_tdiv2(double, unsigned long);
double fl_mpz_shl(double, unsigned long);
long fl_mpz_get_si(double);
unsigned long fl_mpz_bits(double);            // bit length of the absolute value
void fl_mpz_gcdext(double*, double*, double*, double, double);
}
struct __mpz_struct { double v; };
typedef __mpz_struct mpz_t[1];
typedef __mpz_struct* mpz_ptr;
typedef const __mpz_struct* mpz_srcptr;
typedef unsigned long mp_bitcnt_t;
typedef size_t mp_size_t;
FLI void mpz_init(mpz_ptr r) { r->v = 0; }
FLI void mpz_init2(mpz_ptr r, mp_bitcnt_t) { r->v = 0; }
FLI void mpz_clear(mpz_ptr) {}
FLI void mpz_set(mpz_ptr r, mpz_srcptr a) { r->v = a->v; }
FLI void mpz_init_set(mpz_ptr r, mpz_srcptr a) { r->v = a->v; }
FLI void mpz_set_si(mpz_ptr r, long a) { r->v = static_cast<double>(a); }
FLI void mpz_set_ui(mpz_ptr r, unsigned long a) { r->v = static_cast<double>(a); }
FLI void mpz_init_set_si(mpz_ptr r, long a) { r->v = static_cast<double>(a); }
FLI void mpz_init_set_ui(mpz_ptr r, unsigned long a) { r->v = static_cast<double>(a); }
FLI void mpz_swap(mpz_ptr a, mpz_ptr b) { double t = a->v; a->v = b->v; b->v = t; }
FLI void mpz_add(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->v = a->v + b->v; }
FLI void mpz_sub(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->v = a->v - b->v; }
FLI void mpz_mul(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->v = a->v * b->v; }
FLI void mpz_add_ui(mpz_ptr r, mpz_srcptr a, unsigned long b) { r->v = a->v + static_cast<double>(b); }
FLI void mpz_sub_ui(mpz_ptr r, mpz_srcptr a, unsigned long b) { r->v = a->v - static_cast<double>(b); }
FLI void mpz_mul_si(mpz_ptr r, mpz_srcptr a, long b) { r->v = a->v * static_cast<double>(b); }
FLI void mpz_mul_ui(mpz_ptr r, mpz_srcptr a, unsigned long b) { r->v = a->v * static_cast<double>(b); }
FLI void mpz_addmul(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->v = r->v + a->v * b->v; }
FLI void mpz_submul(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->v = r->v - a->v * b->v; }
FLI void mpz_addmul_ui(mpz_ptr r, mpz_srcptr a, unsigned long b) { r->v = r->v + a->v * static_cast<double>(b); }
FLI void mpz_submul_ui(mpz_ptr r, mpz_srcptr a, unsigned long b) { r->v = r->v - a->v * static_cast<double>(b); }
FLI void mpz_neg(mpz_ptr r, mpz_srcptr a) { r->v = -a->v; }
FLI void mpz_abs(mpz_ptr r, mpz_srcptr a) { r->v = __builtin_fabs(a->v); }
FLI void mpz_mul_2exp(mpz_ptr r, mpz_srcptr a, mp_bitcnt_t n) { r->v = fl_mpz_shl(a->v, n); }
FLI void mpz_fdiv_q_2exp(mpz_ptr r, mpz_srcptr a, mp_bitcnt_t n) { r->v = fl_mpz_fdiv2(a->v, n); }
FLI void mpz_tdiv_q_2exp(mpz_ptr r, mpz_srcptr a, mp_bitcnt_t n) { r->v = fl_mpz_tdiv2(a->v, n); }
FLI void mpz_tdiv_q(mpz_ptr q, mpz_srcptr a, mpz_srcptr b) { q->v = fl_mpz_tdiv(a->v, b->v); }
FLI void mpz_tdiv_r(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->v = a->v - fl_mpz_tdiv(a->v, b->v) * b->v; }
FLI void mpz_tdiv_qr(mpz_ptr q, mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { double x = a->v, y = b->v; q->v = fl_mpz_tdiv(x, y); r->v = x - q->v * y; }
FLI void mpz_fdiv_q(mpz_ptr q, mpz_srcptr a, mpz_srcptr b) { q->v = fl_mpz_fdiv(a->v, b->v); }
FLI void mpz_fdiv_r(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->v = a->v - fl_mpz_fdiv(a->v, b->v) * b->v; }
FLI void mpz_fdiv_qr(mpz_ptr q, mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { double x = a->v, y = b->v; q->v = fl_mpz_fdiv(x, y); r->v = x - q->v * y; }
FLI void mpz_gcdext(mpz_ptr g, mpz_ptr s, mpz_ptr t, mpz_srcptr a, mpz_srcptr b) { fl_mpz_gcdext(&g->v, &s->v, &t->v, a->v, b->v); }
FLI int mpz_cmp(mpz_srcptr a, mpz_srcptr b) { return a->v < b->v ? -1 : a->v > b->v ? 1 : 0; }
FLI int mpz_cmp_si(mpz_srcptr a, long b) { double c = static_cast<double>(b); return a->v < c ? -1 : a->v > c ? 1 : 0; }
FLI int mpz_cmp_ui(mpz_srcptr a, unsigned long b) { double c = static_cast<double>(b); return a->v < c ? -1 : a->v > c ? 1 : 0; }
FLI int mpz_cmpabs(mpz_srcptr a, mpz_srcptr b) { double x = __builtin_fabs(a->v), y = __builtin_fabs(b->v); return x < y ? -1 : x > y ? 1 : 0; }
FLI int mpz_sgn(mpz_srcptr a) { return a->v < 0. ? -1 : a->v > 0. ? 1 : 0; }
FLI size_t mpz_sizeinbase(mpz_srcptr a, int) { size_t n = fl_mpz_bits(a->v); return n ? n : 1; }
FLI double mpz_get_d(mpz_srcptr a) { return a->v; }
FLI long mpz_get_si(mpz_srcptr a) { return fl_mpz_get_si(a->v); }
FLI unsigned long mpz_get_ui(mpz_srcptr a) { return static_cast<unsigned long>(fl_mpz_get_si(__builtin_fabs(a->v))); }
FLI int mpz_fits_slong_p(mpz_srcptr a) { return a->v >= -9223372036854775808. && a->v < 9223372036854775808.; }
FLI int mpz_fits_sint_p(mpz_srcptr a) { return a->v >= -2147483648. && a->v <= 2147483647.; }
FLI int mpz_fits_sshort_p(mpz_srcptr a) { return a->v >= -32768. && a->v <= 32767.; }

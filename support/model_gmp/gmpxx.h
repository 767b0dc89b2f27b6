// Model of GNU MP's C++ class for the analyses, see gmp.h.
#pragma once
#include <gmp.h>
#include <iosfwd>
class mpz_class
{
  __mpz_struct mp{ 0. };

public:
  FLI mpz_class() = default;
  FLI mpz_class(int a) { mp.v = static_cast<double>(a); }
  FLI mpz_class(unsigned a) { mp.v = static_cast<double>(a); }
  FLI mpz_class(long a) { mp.v = static_cast<double>(a); }
  FLI mpz_class(unsigned long a) { mp.v = static_cast<double>(a); }
  FLI mpz_class(double a) { mp.v = fl_mpz_trunc(a); }
  FLI explicit mpz_class(mpz_srcptr a) { mp.v = a->v; }
  FLI mpz_ptr get_mpz_t() { return &mp; }
  FLI mpz_srcptr get_mpz_t() const { return &mp; }
  FLI double get_d() const { return mp.v; }
  FLI long get_si() const { return fl_mpz_get_si(mp.v); }
  FLI unsigned long get_ui() const { return mpz_get_ui(&mp); }
  FLI bool fits_slong_p() const { return mpz_fits_slong_p(&mp); }
  FLI bool fits_sint_p() const { return mpz_fits_sint_p(&mp); }
  FLI bool fits_sshort_p() const { return mpz_fits_sshort_p(&mp); }
  FLI void swap(mpz_class& o) { mpz_swap(&mp, &o.mp); }
  FLI explicit operator bool() const { return mp.v != 0.; }
  FLI static mpz_class raw(double v) { mpz_class r; r.mp.v = v; return r; }
  FLI double val() const { return mp.v; }
  FLI mpz_class operator-() const { return raw(-mp.v); }
  FLI mpz_class operator+() const { return *this; }
  FLI mpz_class& operator+=(const mpz_class& b) { mp.v = mp.v + b.mp.v; return *this; }
  FLI mpz_class& operator-=(const mpz_class& b) { mp.v = mp.v - b.mp.v; return *this; }
  FLI mpz_class& operator*=(const mpz_class& b) { mp.v = mp.v * b.mp.v; return *this; }
  FLI mpz_class& operator/=(const mpz_class& b) { mp.v = fl_mpz_tdiv(mp.v, b.mp.v); return *this; }
  FLI mpz_class& operator%=(const mpz_class& b) { mp.v = mp.v - fl_mpz_tdiv(mp.v, b.mp.v) * b.mp.v; return *this; }
  FLI mpz_class& operator<<=(unsigned long n) { mp.v = fl_mpz_shl(mp.v, n); return *this; }
  FLI mpz_class& operator>>=(unsigned long n) { mp.v = fl_mpz_fdiv2(mp.v, n); return *this; }
  FLI mpz_class& operator++() { mp.v = mp.v + 1.; return *this; }
  FLI mpz_class& operator--() { mp.v = mp.v - 1.; return *this; }
  FLI mpz_class operator++(int) { mpz_class t = *this; mp.v = mp.v + 1.; return t; }
  FLI mpz_class operator--(int) { mpz_class t = *this; mp.v = mp.v - 1.; return t; }
};
#define FLB(op) FLI mpz_class operator op(const mpz_class& a, const mpz_class& b) { mpz_class r = a; r op##= b; return r; }
FLB(+) FLB(-) FLB(*) FLB(/) FLB(%)
#undef FLB
FLI mpz_class operator<<(const mpz_class& a, unsigned long n) { return mpz_class::raw(fl_mpz_shl(a.val(), n)); }
FLI mpz_class operator>>(const mpz_class& a, unsigned long n) { return mpz_class::raw(fl_mpz_fdiv2(a.val(), n)); }
#define FLC(op) FLI bool operator op(const mpz_class& a, const mpz_class& b) { return a.val() op b.val(); }
FLC(==) FLC(!=) FLC(<) FLC(<=) FLC(>) FLC(>=)
#undef FLC
FLI mpz_class abs(const mpz_class& a) { return mpz_class::raw(__builtin_fabs(a.val())); }
FLI int sgn(const mpz_class& a) { return mpz_sgn(a.get_mpz_t()); }
FLI int cmp(const mpz_class& a, const mpz_class& b) { return mpz_cmp(a.get_mpz_t(), b.get_mpz_t()); }
FLI void swap(mpz_class& a, mpz_class& b) { a.swap(b); }

// Stand-in for the absent pcg-cpp submodule: a PCG XSL-RR 128/64 generator with
// the part of the pcg64 interface that CPPQEDutils/Random.h uses.
#pragma once
#include <cstdint>
#include <istream>
#include <ostream>
#include <ios>
class pcg64
{
  using u128 = unsigned __int128;
  static constexpr u128 mul() { return (u128(2549297995355413924ULL)<<64) + 4865540595714422341ULL; }
  u128 inc_, state_;
  void bump() { state_ = state_*mul()+inc_; }
public:
  using result_type = std::uint64_t;
  static constexpr result_type min() { return 0; }
  static constexpr result_type max() { return ~result_type(0); }
  explicit pcg64(std::uint64_t s = 0xcafef00dd15ea5e5ULL, std::uint64_t stream = 0xa02bdbf7bb3c0a7ULL)
    : inc_((u128(stream)<<1)|1), state_(u128(s)+((u128(stream)<<1)|1)) { bump(); }
  result_type operator()() {
    u128 old = state_; bump();
    std::uint64_t x = std::uint64_t(old>>64)^std::uint64_t(old);
    unsigned rot = unsigned(old>>122);
    return (x>>rot)|(x<<((-rot)&63));
  }
  bool operator==(const pcg64& o) const { return inc_==o.inc_ && state_==o.state_; }
  bool operator!=(const pcg64& o) const { return !(*this==o); }
  friend std::ostream& operator<<(std::ostream& os, const pcg64& p) {
    auto f=os.flags(std::ios_base::dec|std::ios_base::left); auto fill=os.fill(' ');
    os<<std::uint64_t(mul()>>64)<<' '<<std::uint64_t(mul())<<' '<<std::uint64_t(p.inc_>>64)<<' '<<std::uint64_t(p.inc_)<<' '<<std::uint64_t(p.state_>>64)<<' '<<std::uint64_t(p.state_);
    os.flags(f); os.fill(fill); return os;
  }
  friend std::istream& operator>>(std::istream& is, pcg64& p) {
    std::uint64_t v[6]; for (auto& x : v) is>>x;
    if (is.fail()) return is;
    if (v[0]!=std::uint64_t(mul()>>64) || v[1]!=std::uint64_t(mul())) { is.setstate(std::ios_base::failbit); return is; }
    p.inc_=(u128(v[2])<<64)|v[3]; p.state_=(u128(v[4])<<64)|v[5];
    return is;
  }
};

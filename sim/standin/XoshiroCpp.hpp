// Stand-in for the absent Xoshiro-cpp submodule: the published xoshiro256++
// algorithm with the part of the interface that CPPQEDutils/Random.h uses.
#pragma once
#include <array>
#include <cstdint>
namespace XoshiroCpp {
class Xoshiro256PlusPlus
{
public:
  using state_type = std::array<std::uint64_t,4>;
  using result_type = std::uint64_t;
  static constexpr result_type min() { return 0; }
  static constexpr result_type max() { return ~result_type(0); }
  explicit Xoshiro256PlusPlus(std::uint64_t seed = 1234567890ULL) {
    for (auto& s : s_) { std::uint64_t z=(seed+=0x9e3779b97f4a7c15ULL); z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL; z=(z^(z>>27))*0x94d049bb133111ebULL; s=z^(z>>31); }
  }
  result_type operator()() {
    auto rotl=[](std::uint64_t x, int k) {return (x<<k)|(x>>(64-k));};
    const std::uint64_t result=rotl(s_[0]+s_[3],23)+s_[0], t=s_[1]<<17;
    s_[2]^=s_[0]; s_[3]^=s_[1]; s_[1]^=s_[2]; s_[0]^=s_[3]; s_[2]^=t; s_[3]=rotl(s_[3],45);
    return result;
  }
  constexpr state_type serialize() const { return s_; }
  constexpr void deserialize(const state_type s) { s_=s; }
private:
  state_type s_;
};
}

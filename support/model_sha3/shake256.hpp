// Declaration-only model of the (absent) git submodule itzmeanjan/sha3.  The
// member functions have no bodies: calls to them appear as external calls in
// the LLVM IR of falcon, which is where the analyses give them their meaning.
#pragma once
#include <cstddef>
#include <cstdint>
namespace shake256 {
constexpr size_t rate = 1088;
template<const bool incremental = false>
struct shake256
{
private:
  uint64_t state[25];
  size_t readable;
  size_t offset;
  bool absorbed;

public:
  void hash(const uint8_t* const msg, const size_t mlen);
  void absorb(const uint8_t* const msg, const size_t mlen);
  void finalize();
  void read(uint8_t* const dig, const size_t dlen);
};
}

// Small, working stand-in for the (absent) git submodule itzmeanjan/sha3:
// SHAKE256 with the interface falcon uses.  Only demonstrations use it.
#pragma once
#include <cstddef>
#include <cstdint>
namespace shake256 {
constexpr size_t rate = 1088;
template<const bool incremental = false>
struct shake256
{
private:
  uint64_t st[25]{};
  size_t pos = 0;

  static uint64_t rotl(uint64_t x, int n) { return n ? (x << n) | (x >> (64 - n)) : x; }
  void permute()
  {
    static const int rho[24] = { 1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44 };
    static const int pil[24] = { 10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1 };
    static const uint64_t rc[24] = {
      0x0000000000000001ull, 0x0000000000008082ull, 0x800000000000808aull, 0x8000000080008000ull, 0x000000000000808bull, 0x0000000080000001ull,
      0x8000000080008081ull, 0x8000000000008009ull, 0x000000000000008aull, 0x0000000000000088ull, 0x0000000080008009ull, 0x000000008000000aull,
      0x000000008000808bull, 0x800000000000008bull, 0x8000000000008089ull, 0x8000000000008003ull, 0x8000000000008002ull, 0x8000000000000080ull,
      0x000000000000800aull, 0x800000008000000aull, 0x8000000080008081ull, 0x8000000000008080ull, 0x0000000080000001ull, 0x8000000080008008ull };
    for (int r = 0; r < 24; r++) {
      uint64_t bc[5];
      for (int i = 0; i < 5; i++) bc[i] = st[i] ^ st[i + 5] ^ st[i + 10] ^ st[i + 15] ^ st[i + 20];
      for (int i = 0; i < 5; i++) {
        const uint64_t t = bc[(i + 4) % 5] ^ rotl(bc[(i + 1) % 5], 1);
        for (int j = 0; j < 25; j += 5) st[j + i] ^= t;
      }
      uint64_t t = st[1];
      for (int i = 0; i < 24; i++) { const int j = pil[i]; const uint64_t b = st[j]; st[j] = rotl(t, rho[i]); t = b; }
      for (int j = 0; j < 25; j += 5) {
        uint64_t b[5];
        for (int i = 0; i < 5; i++) b[i] = st[j + i];
        for (int i = 0; i < 5; i++) st[j + i] ^= (~b[(i + 1) % 5]) & b[(i + 2) % 5];
      }
      st[0] ^= rc[r];
    }
  }
  void xor_byte(size_t i, uint8_t b) { st[i / 8] ^= static_cast<uint64_t>(b) << (8 * (i % 8)); }

public:
  void absorb(const uint8_t* const m, const size_t n)
  {
    for (size_t i = 0; i < n; i++) { xor_byte(pos++, m[i]); if (pos == 136) { permute(); pos = 0; } }
  }
  void finalize() { xor_byte(pos, 0x1f); xor_byte(135, 0x80); permute(); pos = 0; }
  void hash(const uint8_t* const m, const size_t n) { absorb(m, n); finalize(); }
  void read(uint8_t* const d, const size_t n)
  {
    for (size_t i = 0; i < n; i++) {
      if (pos == 136) { permute(); pos = 0; }
      d[i] = static_cast<uint8_t>(st[pos / 8] >> (8 * (pos % 8)));
      pos++;
    }
  }
};
}

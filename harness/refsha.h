// Reference SHA-512 and SHA-512/256, written from FIPS 180-4, independent of /repo.
#pragma once
#include <array>
#include <cstddef>
#include <cstdint>
#include <vector>
namespace ref {
using Hash = std::array<uint8_t, 32>;
void sha512(const uint8_t* data, size_t len, uint8_t out[64]);
void sha512_256(const uint8_t* data, size_t len, uint8_t out[32]);
Hash node_hash(const Hash& l, const Hash& r);
} // namespace ref

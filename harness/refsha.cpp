#include "refsha.h"
#include "sha_constants.h"
#include <cstring>
namespace ref {
static inline uint64_t rotr(uint64_t x, int n) { return (x >> n) | (x << (64 - n)); }
static void compress(uint64_t h[8], const uint8_t* blk)
{
    uint64_t w[80];
    for (int i = 0; i < 16; ++i) {
        uint64_t v = 0;
        for (int j = 0; j < 8; ++j) v = (v << 8) | blk[8 * i + j];
        w[i] = v;
    }
    for (int i = 16; i < 80; ++i) {
        uint64_t s0 = rotr(w[i - 15], 1) ^ rotr(w[i - 15], 8) ^ (w[i - 15] >> 7);
        uint64_t s1 = rotr(w[i - 2], 19) ^ rotr(w[i - 2], 61) ^ (w[i - 2] >> 6);
        w[i] = w[i - 16] + s0 + w[i - 7] + s1;
    }
    uint64_t v[8];
    memcpy(v, h, sizeof v);
    for (int i = 0; i < 80; ++i) {
        uint64_t S1 = rotr(v[4], 14) ^ rotr(v[4], 18) ^ rotr(v[4], 41);
        uint64_t ch = (v[4] & v[5]) ^ (~v[4] & v[6]);
        uint64_t t1 = v[7] + S1 + ch + K512[i] + w[i];
        uint64_t S0 = rotr(v[0], 28) ^ rotr(v[0], 34) ^ rotr(v[0], 39);
        uint64_t mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
        uint64_t t2 = S0 + mj;
        v[7] = v[6]; v[6] = v[5]; v[5] = v[4]; v[4] = v[3] + t1;
        v[3] = v[2]; v[2] = v[1]; v[1] = v[0]; v[0] = t1 + t2;
    }
    for (int i = 0; i < 8; ++i) h[i] += v[i];
}
static void run(const uint64_t* iv, const uint8_t* data, size_t len, uint64_t h[8])
{
    memcpy(h, iv, 64);
    size_t full = len / 128;
    for (size_t i = 0; i < full; ++i) compress(h, data + 128 * i);
    uint8_t tail[256] = {0};
    size_t rem = len - full * 128;
    if (rem) memcpy(tail, data + full * 128, rem);
    tail[rem] = 0x80;
    size_t tl = rem + 17 <= 128 ? 128 : 256;
    unsigned __int128 bits = (unsigned __int128)len * 8;
    for (int i = 0; i < 16; ++i) tail[tl - 1 - i] = (uint8_t)(bits >> (8 * i));
    compress(h, tail);
    if (tl == 256) compress(h, tail + 128);
}
static void put(const uint64_t* h, int words, uint8_t* out)
{
    for (int i = 0; i < words; ++i)
        for (int j = 0; j < 8; ++j) out[8 * i + j] = (uint8_t)(h[i] >> (56 - 8 * j));
}
void sha512(const uint8_t* d, size_t n, uint8_t out[64]) { uint64_t h[8]; run(IV512, d, n, h); put(h, 8, out); }
void sha512_256(const uint8_t* d, size_t n, uint8_t out[32]) { uint64_t h[8]; run(IV512_256, d, n, h); put(h, 4, out); }
Hash node_hash(const Hash& l, const Hash& r)
{
    uint8_t b[64];
    memcpy(b, l.data(), 32);
    memcpy(b + 32, r.data(), 32);
    Hash o;
    sha512_256(b, 64, o.data());
    return o;
}
} // namespace ref

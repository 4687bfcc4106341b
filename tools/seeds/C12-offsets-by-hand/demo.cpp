#include <cstdio>
#include <cstring>
#include <new>
#include <thread>
#include <vector>
#include "beacon-chain/attestation.hpp"
#include "beacon-chain/validator.hpp"
#include "common/bitlist.hpp"
#include "common/bitvector.hpp"
#include "common/containers.hpp"
using namespace eth;
using Buf = std::vector<std::uint8_t>;
template <class T> bool dec(T &o, const Buf &b) { return o.deserialize(b.cbegin(), b.cend()); }
static ssz::Chunk H(const ssz::Chunk &a, const ssz::Chunk &b) {
    unsigned char in[64], out[64];
    std::memcpy(in, a.data(), 32); std::memcpy(in + 32, b.data(), 32);
    ssz::Hasher{}.hash_64b_blocks(out, in, 1);
    ssz::Chunk r; std::memcpy(r.data(), out, 32); return r;
}
static ssz::Chunk num(std::uint64_t v) { ssz::Chunk c{}; std::memcpy(c.data(), &v, 8); return c; }


#include <cstdlib>
#include <new>
#include <vector>
#include <stdexcept>
static long live = 0, fuse = -1;
void *operator new(std::size_t n) { if (fuse >= 0 && fuse-- == 0) throw std::bad_alloc(); live++; return std::malloc(n ? n : 1); }
void *operator new[](std::size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { if (p) live--; std::free(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void *p, std::size_t) noexcept { operator delete(p); }
#include "common/containers.hpp"
#include "common/bitlist.hpp"
#include "common/bitvector.hpp"
#include "beacon-chain/attestation.hpp"
#include "ssz/hashtree.hpp"
using namespace eth;
template <class F> int grows(F f) { for (int k = 0; k < 4; k++) { try { f(); } catch (...) {} } long a = live; for (int k = 0; k < 100; k++) { try { f(); } catch (...) {} } return live > a + 50; }
int main() { Checkpoint c; int bad = 0; for (int at = 0; at < 12; at++) bad |= grows([&] { fuse = at; try { c.serialize(); } catch (...) {} fuse = -1; }); return bad; }

// Thin C interface over the public Hasher class; built together with the real ssz/hasher.cpp and kernels.
#include "ssz/hasher.hpp"
extern "C" void *k_make(int impl) {
    if (impl == 0) return new ssz::Hasher();
    return new ssz::Hasher(static_cast<ssz::Hasher::IMPL>(impl));
}
extern "C" void k_free(void *h) { delete static_cast<ssz::Hasher *>(h); }
extern "C" void k_hash(const void *h, unsigned char *out, const unsigned char *in, unsigned long n) {
    static_cast<const ssz::Hasher *>(h)->hash_64b_blocks(out, in, n);
}
extern "C" int k_impl() { return static_cast<int>(ssz::Hasher::implemented()); }

PROPERTY = 'C03'
NEEDS = 'a CPU that reports the SHA extensions but no AVX2'
BREAKS = 'the eight lane implementation is preferred on every CPU with SHA extensions, although some have no AVX2'
EDITS = [('ssz/hasher.cpp', '    if (!!(impl & IMPL::SHA)) return &::sha256_shani;\n    if (!!(impl & IMPL::AVX2)) return &::sha256_8_avx2;\n', '    // Long batches are fastest with eight lanes; every CPU with SHA extensions is newer than AVX2.\n    if (impl >= IMPL::AVX2) return &::sha256_8_avx2;\n')]

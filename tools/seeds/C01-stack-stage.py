PROPERTY = 'C01'
NEEDS = 'a batch of more blocks than fit on the stack of the calling thread'
BREAKS = 'unaligned input is staged on the stack, all blocks of the batch at once'
EDITS = [('ssz/hasher.cpp', 'void Hasher::sha256_sse(unsigned char* output, const unsigned char* input, std::size_t blocks) {\n', 'void Hasher::sha256_sse(unsigned char* output, const unsigned char* input, std::size_t blocks) {\n    const auto bytes = blocks * 2 * constants::BYTES_PER_CHUNK;\n    if (blocks && reinterpret_cast<std::uintptr_t>(input) % 16) {  // the kernel is faster on aligned input\n        auto* const stage = static_cast<unsigned char*>(__builtin_alloca_with_align(bytes, 128));\n        input = static_cast<const unsigned char*>(__builtin_memcpy(stage, input, bytes));\n    }\n')]

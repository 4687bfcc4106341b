PROPERTY = 'C03'
NEEDS = 'two pairs of nodes hashed one after the other that agree in the first eight bytes of each half'
BREAKS = 'the last pair is remembered and recognised by the first eight bytes of its halves'
EDITS = [('ssz/hashtree.cpp', '    Chunk ret;\n    hasher.hash_64b_blocks(ret.data(), sum.data(), 1);\n    return ret;', '    static thread_local std::array<std::uint8_t, sizeof(sum)> last_sum{};\n    static thread_local Chunk last_ret{};\n    static thread_local bool known = false;\n    const auto same = [&](std::size_t at) { return std::equal(sum.begin() + at, sum.begin() + at + 8, last_sum.begin() + at); };\n    if (known && same(0) && same(constants::BYTES_PER_CHUNK)) return last_ret;\n    hasher.hash_64b_blocks(last_ret.data(), sum.data(), 1);\n    last_sum = sum;\n    known = true;\n    return last_ret;')]

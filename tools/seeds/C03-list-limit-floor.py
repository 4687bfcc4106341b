PROPERTY = 'C03'
NEEDS = 'a list of integers whose limit is not a multiple of the integers per chunk'
BREAKS = 'the chunk limit of lists of basic objects is rounded down'
EDITS = [('common/containers.hpp', '        auto limit = (limit_ * T::ssz_size + constants::BYTES_PER_CHUNK - 1) / constants::BYTES_PER_CHUNK;\n', '        // a chunk holds this many elements\n        constexpr auto per_chunk = constants::BYTES_PER_CHUNK / T::ssz_size;\n        auto limit = limit_ / per_chunk;\n')]

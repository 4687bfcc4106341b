PROPERTY = 'C08'
NEEDS = 'a byte string whose length is not a multiple of 32, hashed in memory that held something else'
BREAKS = 'the last chunk is packed into memory that was never cleared'
EDITS = [('ssz/hashtree.cpp', '        for (auto it = vec.cbegin(); it < vec.end(); it += constants::BYTES_PER_CHUNK) {\n            Chunk chunk{};\n            std::copy(it, std::min(it + constants::BYTES_PER_CHUNK, vec.end()), chunk.begin());\n            ret.push_back(chunk);\n        }\n', '        const auto chunks = (vec.size() + sizeof(Chunk) - 1) / sizeof(Chunk);\n        auto* const packed = static_cast<Chunk*>(std::malloc(chunks * sizeof(Chunk)));\n        if (!packed) throw std::bad_alloc();\n        std::copy(vec.cbegin(), vec.cend(), packed[0].begin());\n        ret.assign(packed, packed + chunks);\n        std::free(packed);\n'), ('ssz/hashtree.cpp', '#include <stdexcept>\n', '#include <cstdlib>\n#include <new>\n#include <stdexcept>\n')]

PROPERTY = 'C06'
NEEDS = 'memory running out while a serialised object is cut into chunks'
BREAKS = 'the padded copy of the bytes is lost when the vector of chunks cannot be allocated'
EDITS = [('ssz/hashtree.cpp', '        ret.reserve((vec.size() + sizeof(Chunk) - 1) / sizeof(Chunk));\n        for (auto it = vec.cbegin(); it < vec.end(); it += constants::BYTES_PER_CHUNK) {\n            Chunk chunk{};\n            std::copy(it, std::min(it + constants::BYTES_PER_CHUNK, vec.end()), chunk.begin());\n            ret.push_back(chunk);\n        }\n', '        const auto count = (vec.size() + sizeof(Chunk) - 1) / sizeof(Chunk);\n        auto* padded = new Chunk[count]{};\n        std::copy(vec.begin(), vec.end(), padded[0].begin());\n        ret.assign(padded, padded + count);\n        delete[] padded;\n')]

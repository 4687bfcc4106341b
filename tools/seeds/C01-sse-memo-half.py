PROPERTY = 'C01'
NEEDS = 'two blocks hashed one after the other by the SSE implementation whose first halves are equal and whose second halves differ'
BREAKS = 'the SSE implementation remembers the last digest and recognises its block by the first half only'
EDITS = [('ssz/hasher.cpp', '    while (blocks) {\n        sha256_1_avx(output, input);\n', '    const unsigned char* last = nullptr;  // equal blocks follow each other in sparse trees\n    while (blocks) {\n        if (last && std::equal(input, input + constants::BYTES_PER_CHUNK, last)) {\n            std::copy(output - constants::BYTES_PER_CHUNK, output, output);\n        } else {\n            sha256_1_avx(output, input);\n        }\n        last = input;\n'), ('ssz/hasher.cpp', '#include <cpuid.h>\n', '#include <cpuid.h>\n#include <algorithm>\n')]

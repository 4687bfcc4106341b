PROPERTY = 'C02'
NEEDS = 'a caller that runs with another rounding mode or flush setting than the default'
BREAKS = "the SSE loop sets the floating point control state and puts back the default instead of the caller's"
EDITS = [('ssz/hasher.cpp', '    while (blocks) {', '    _mm_setcsr(0x1f80);  // masked, denormals as they are\n    while (blocks) {'), ('ssz/hasher.cpp', '#include <cpuid.h>', '#include <cpuid.h>\n#include <xmmintrin.h>')]

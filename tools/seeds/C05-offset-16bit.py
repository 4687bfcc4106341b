PROPERTY = 'C05'
NEEDS = 'a container with two variable parts, the first longer than 65535 bytes'
BREAKS = 'the length of a variable part is added to the running offset in 16 bits'
EDITS = [('ssz/ssz_container.cpp', 'fixed_length += std::uint32_t(part_ssz.size());', 'fixed_length += std::uint16_t(part_ssz.size());')]

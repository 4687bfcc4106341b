PROPERTY = 'C03'
NEEDS = 'a list of more than 65535 elements'
BREAKS = 'the length mixed into the root of a list is cut to 16 bits'
EDITS = [('ssz/hashtree.cpp', 'auto length_bytes = eth::Bytes32(length);', 'auto length_bytes = eth::Bytes32(std::uint16_t(length));')]

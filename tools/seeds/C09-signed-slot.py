PROPERTY = 'C09'
NEEDS = 'a number of 2^63 or more, for example the far future epoch'
BREAKS = 'numbers are written to text as signed'
EDITS = [('common/slot.hpp', 'YAML::convert<std::uint64_t>::encode(value_)', 'YAML::convert<std::int64_t>::encode(static_cast<std::int64_t>(value_))')]

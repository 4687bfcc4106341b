PROPERTY = 'C10'
NEEDS = 'two numbers above 2^53 that differ in their low bits only'
BREAKS = 'numbers are compared as floating point numbers'
EDITS = [('common/slot.hpp', 'bool operator==(const Slot&) const = default;', 'bool operator==(const Slot& o) const { return double(value_) == double(o.value_); }')]

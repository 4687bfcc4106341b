PROPERTY = 'C10'
NEEDS = 'two voluntary exits of different validators for the same epoch'
BREAKS = 'the comparison of voluntary exits takes the inherited comparison for one of the whole value'
EDITS = [('beacon-chain/beacon_block.hpp', '    bool operator==(const VoluntaryExit &) const = default;\n', '    bool operator==(const VoluntaryExit &r) const { return ssz::Container::operator==(r) && epoch == r.epoch; }\n')]

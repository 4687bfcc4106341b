PROPERTY = 'C09'
NEEDS = 'a text in which a sequence of the parts stands where the map of a container should'
BREAKS = 'a container takes its parts by position from a sequence'
EDITS = [('ssz/ssz_container.cpp', 'bool Container::decode_(const YAML::Node &node, std::vector<Part> parts) {\n', 'bool Container::decode_(const YAML::Node &node, std::vector<Part> parts) {\n    if (node.IsSequence() && node.size() == parts.size()) {  // parts in their order\n        std::size_t at = 0;\n        return std::all_of(parts.begin(), parts.end(), [&](Part part) { return part.second->decode(node[at++]); });\n    }\n')]

PROPERTY = 'C12'
NEEDS = 'text with a sequence where one number is expected'
BREAKS = 'the refused nodes are kept for the error report'
EDITS = [('common/slot.hpp', '    bool decode(const YAML::Node& node) override { return YAML::convert<std::uint64_t>::decode(node, value_); }\n};\n', '    bool decode(const YAML::Node& node) override {\n        if (YAML::convert<std::uint64_t>::decode(node, value_)) return true;\n        refused().push_back(node);\n        return false;\n    }\n    static std::vector<YAML::Node>& refused() {  // shown by the front end\n        static std::vector<YAML::Node> nodes;\n        return nodes;\n    }\n};\n')]

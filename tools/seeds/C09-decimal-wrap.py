PROPERTY = 'C09'
NEEDS = 'an integer above 2^64 - 1 in a text'
BREAKS = 'integers are read digit by digit without looking for an overflow'
EDITS = [('common/slot.hpp', '    bool decode(const YAML::Node& node) override { return YAML::convert<std::uint64_t>::decode(node, value_); }', "    bool decode(const YAML::Node& node) override {\n        if (!node.IsScalar()) return false;\n        const auto& text = node.Scalar();\n        std::uint64_t value = 0;\n        for (auto c : text) {\n            if (c < '0' || c > '9') return YAML::convert<std::uint64_t>::decode(node, value_);\n            value = 10 * value + (c - '0');\n        }\n        value_ = value;\n        return !text.empty();\n    }")]

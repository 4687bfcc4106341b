PROPERTY = 'C09'
NEEDS = 'text that holds null where a list of variable-size parts belongs'
BREAKS = 'null is read as an empty list'
EDITS = [('common/containers.hpp', '    bool operator==(const ListVariableSizedParts &) const = default;\n\n    YAML::Node encode() const override { return YAML::convert<std::vector<T>>::encode(m_arr); }\n    bool decode(const YAML::Node &node) override {\n', '    bool operator==(const ListVariableSizedParts &) const = default;\n\n    YAML::Node encode() const override { return YAML::convert<std::vector<T>>::encode(m_arr); }\n    bool decode(const YAML::Node &node) override {\n        if (node.IsNull()) {  // nothing there\n            m_arr.clear();\n            return true;\n        }\n')]
OWN_LINES = True

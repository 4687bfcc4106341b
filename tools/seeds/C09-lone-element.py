PROPERTY = 'C09'
NEEDS = 'a text in which a lone element stands where a sequence should'
BREAKS = 'a list accepts a scalar as a list of one element'
EDITS = [('common/containers.hpp', '    YAML::Node encode() const override { return YAML::convert<std::vector<T>>::encode(m_arr); }\n    bool decode(const YAML::Node &node) override {\n        if (!YAML::convert<std::vector<T>>::decode(node, m_arr)) return false;\n        if (!limit_ || m_arr.size() <= limit_) return true;\n        m_arr.clear();\n        return false;\n    }\n};\n\ntemplate <class T>\nclass ListVariableSizedParts', '    YAML::Node encode() const override { return YAML::convert<std::vector<T>>::encode(m_arr); }\n    bool decode(const YAML::Node &node) override {\n        if (node.IsScalar()) {  // a list of one\n            m_arr.assign(1, T{});\n            return m_arr.front().decode(node);\n        }\n        if (!YAML::convert<std::vector<T>>::decode(node, m_arr)) return false;\n        if (!limit_ || m_arr.size() <= limit_) return true;\n        m_arr.clear();\n        return false;\n    }\n};\n\ntemplate <class T>\nclass ListVariableSizedParts')]
OWN_LINES = True

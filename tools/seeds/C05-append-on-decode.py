PROPERTY = 'C05'
NEEDS = 'an object that receives a second message of a list of variable-size parts after one that was cut off in the middle'
BREAKS = 'a rejected payload leaves its first elements in the list, and the next payload is appended to them'
EDITS = [('common/containers.hpp', '    bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {\n        m_arr.clear();\n        if (it == end)  // empty list\n            return true;', '    bool pending_ = false;  // elements of a payload under way\n\n    bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {\n        if (!pending_) m_arr.clear();\n        pending_ = true;\n        if (it == end) {  // empty list\n            pending_ = false;\n            return true;\n        }'), ('common/containers.hpp', '        T obj;\n        if (!obj.deserialize(start + last_offset, end)) return false;\n        m_arr.push_back(obj);\n        return true;', '        T obj;\n        if (!obj.deserialize(start + last_offset, end)) return false;\n        m_arr.push_back(obj);\n        pending_ = false;\n        return true;')]

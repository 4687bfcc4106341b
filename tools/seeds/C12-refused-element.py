PROPERTY = 'C12'
NEEDS = 'a list of variable-sized elements where one element other than the last is refused'
BREAKS = 'each element is decoded on the heap and only given back when it was accepted'
EDITS = [('common/containers.hpp', '            T obj;\n            if (!obj.deserialize(start + last_offset, start + current_offset)) return false;\n            m_arr.push_back(obj);\n            last_offset = current_offset;', '            auto *const obj = new T;\n            if (!obj->deserialize(start + last_offset, start + current_offset)) return false;\n            m_arr.push_back(std::move(*obj));\n            delete obj;\n            last_offset = current_offset;')]

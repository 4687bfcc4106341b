PROPERTY = 'C06'
NEEDS = 'an allocation that fails while the element storage of a list grows during decoding'
BREAKS = 'the decoder stops quietly when the element storage cannot grow and reports success with the elements it has'
EDITS = [('common/containers.hpp', '            if (!obj.deserialize(i, i + T::ssz_size)) return false;\n            m_arr.push_back(obj);\n', '            if (!obj.deserialize(i, i + T::ssz_size)) return false;\n            try {\n                m_arr.push_back(obj);\n            } catch (const std::exception &) {\n                break;  // out of memory: keep what is there\n            }\n')]

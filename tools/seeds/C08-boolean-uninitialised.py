PROPERTY = 'C08'
NEEDS = 'a fresh object in memory that held other data'
BREAKS = 'a boolean that is created without a value is left uninitialised'
EDITS = [('common/boolean.hpp', '    Boolean(bool s = false) : value_{s} {};\n', '    Boolean() {}\n    Boolean(bool s) : value_{s} {};\n')]

PROPERTY = 'C09'
NEEDS = 'text of a container in which a field is missing'
BREAKS = 'a field that the text does not mention keeps whatever the object held before'
EDITS = [('ssz/ssz_container.cpp', '[&node](Part part) { return part.second->decode(node[part.first]); }', '[&node](Part part) { return !node[part.first] || part.second->decode(node[part.first]); }')]

#define PART 0
#include "glue.hpp"

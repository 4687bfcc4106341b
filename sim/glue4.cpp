#define PART 4
#include "glue.hpp"

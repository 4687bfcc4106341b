#define PART 3
#include "glue.hpp"

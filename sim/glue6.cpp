#define PART 6
#include "glue.hpp"

#define PART 1
#include "glue.hpp"

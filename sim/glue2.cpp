#define PART 2
#include "glue.hpp"

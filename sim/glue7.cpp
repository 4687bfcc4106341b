#define PART 7
#include "glue.hpp"

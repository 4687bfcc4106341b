#define PART 5
#include "glue.hpp"

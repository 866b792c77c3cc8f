#include <string>
#include <vector>
#include "surf.hpp"

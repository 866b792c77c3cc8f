// the benchmark's Bloom filter; everything of the standard library first, so that the namespace holds its code only
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
using namespace std;
namespace vpbench {
#include "bloom.hpp"
}

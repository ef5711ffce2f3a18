#include "common.hpp"
namespace drv {
#include "routines.inc"
}

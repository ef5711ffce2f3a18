// Analysis driver for the legacy pointer interface: one caller per routine.
#include <complex>
#include <vector>
#include "tlapack/legacy_api/blas.hpp"
#include "tlapack/legacy_api/lapack.hpp"
using namespace tlapack;
using T = SCALAR;
using R = real_type<T>;
#include "legacy_routines.inc"

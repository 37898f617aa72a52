// The repository compiles picosat as C++; the installed library is C.
#pragma once
extern "C" {
#include </usr/include/picosat/picosat.h>
}

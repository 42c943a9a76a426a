// The system's picosat.h has no C linkage guard for C++.
#pragma once
#include <cstddef>
#include <cstdio>
#include <cstdlib>
extern "C" {
#include_next <picosat.h>
}

// shared prologue of the harnesses
#pragma once
#include "../sim/sim.h"
namespace sim { struct nullbuf : std::streambuf { int overflow(int c) override { return c; } }; extern std::ostream nullout; }
#define STDCOUT(args) (::sim::nullout << args)
#define STDCOUTL(args) (STDCOUT(args) << "\n")
#ifndef NNTL_MATLAB_AVAILABLE
#define NNTL_MATLAB_AVAILABLE 0
#endif

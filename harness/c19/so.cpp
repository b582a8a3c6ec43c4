// The generated C++ libraries: SINGLEHEADER: gen.hpp with its implementation, else the segmented library, or the variant for Unreal (UNREAL), where the dependencies are a unit of their own.
#include "pre.h"
#ifdef SINGLEHEADER
#define GEN_IMPLEMENTATION
#include "gen.hpp"
#else
#ifdef UNREAL
#include "gen.dep.cpp"
#endif
#include "gen.cpp"
#include "gen.builder.cpp"
#include "gen.scanner.cpp"
#endif
using namespace gen;
#define VP_EXPORT extern "C" __attribute__(( visibility( "default" ) ))
#include "cpp.inl"

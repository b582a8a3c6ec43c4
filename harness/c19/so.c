// The generated C library: the single header (SINGLEHEADER) or its segments.
#ifdef SINGLEHEADER
#define GEN_IMPLEMENTATION
#include "gen_singleheader.h"
#else
#include "gen.c"
#endif
#include "c.inl"

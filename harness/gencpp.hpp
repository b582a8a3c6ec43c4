// The code under test: /repo/base as one translation unit (debug traps and process-fatal exits off, so a
// rejected construction is an ordinary CT_Invalid result that a case can observe).
#pragma once
#include <unistd.h>
#include <stdint.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <utility>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#ifndef GEN_TIME
#define GEN_TIME
#endif
#include "pbt.hpp"
#include <map>
#include <set>
#include <unordered_map>
#include "gen.hpp"
// Failures the library reports (log_failure), counted.
namespace gx { inline long failures = 0; }
#undef log_failure
#define log_failure( ... ) ( ++ gx::failures, gen::log_fmt( __VA_ARGS__ ) )
#include "gen.cpp"
#ifdef GX_BASE_CODEGEN
namespace gen {
#include "helpers/base_codegen.hpp"
}
#endif
#undef name
#undef code
#undef args
#undef min
#undef max
#undef clamp
#undef count_of
#undef swap
#undef abs
#undef square
#undef cube
#undef global
#undef internal
#undef local_persist
#undef bit
#undef cast

namespace gx {
inline gen::Str S( const std::string& s ) { return gen::Str{ s.c_str(), (gen::ssize)s.size() }; }
inline std::string X( gen::Str s ) { return s.Ptr ? std::string( s.Ptr, s.Len ) : std::string(); }
inline std::string X( gen::StrBuilder s ) { return std::string( (char*)s, gen::strbuilder_length( s ) ); }
}

// Shared by the checks whose cases are generated C++ source (gen_src.hpp).
#pragma once
#include "gen_src.hpp"
using namespace gen; using src::D; using src::SG; using src::Style;
static Context ctx;
static void fresh() {
	static bool live = false; if ( live ) gen::deinit( &ctx ); live = true;
	ctx = Context{}; ctx.InitSize_LexerTokens = 4096; ctx.CodePool_NumBlocks = 4096; ctx.SizePer_StringArena = 1 << 18; ctx.InitSize_Fallback_Allocator_Bucket_Size = 1 << 22; ctx.InitSize_BuilderBuffer = 4096;
	gen::init( &ctx );
}
static std::string diff( const std::string& a, const std::string& b ) { size_t i = 0; while ( i < a.size() && i < b.size() && a[ i ] == b[ i ] ) ++i; size_t s = i > 60 ? i - 60 : 0; return "  have: ..." + a.substr( s, 160 ) + "\n  want: ..." + b.substr( s, 160 ); }
// parses; the result has to be valid and nothing may have been reported
static Code parse( const std::string& text, const char* what = "" ) {
	long before = gx::failures;
	CodeBody b = parse_global_body( gx::S( text ) );
	PBT_CHECK( b && (Code)b != Code_Invalid, "%srejected:\n%s", what, text.c_str() );
	PBT_CHECK( gx::failures == before, "%sreported as a failure:\n%s", what, text.c_str() );
	return (Code)b;
}
static std::string text_of( Code c ) { return gx::X( code_to_strbuilder( c ) ); }
static void same_tokens( const std::string& out, const D& d ) {
	src::Toks have = src::lex( out ); std::string h = src::join( have ), w = src::join( d.e );
	PBT_CHECK( h == w, "the serialization has other tokens\n%s\noutput:\n%s", diff( h, w ).c_str(), out.c_str() );
	PBT_CHECK( src::shifts_intact( have, d.e ), "a shift operator was split\noutput:\n%s", out.c_str() );
}
static void labels( pbt::Gen& g, const D& d ) { for ( const char* k : { "var[", "fn[", "op[", "cast[", "ctor[", "dtor[", "class[", "struct[", "union[", "enum", "tmpl[", "typedef[", "using", "friend[", "ns[", "extern[", "export", "define[", "if", "include[", "cmt[", "A=", "//" } ) if ( d.f.find( k ) != std::string::npos ) g.label( k ); }
static int run_main( int argc, char** argv, const char* id, const char* rule, std::vector<pbt::Suite> suites, std::vector<std::string> assumptions = {}, std::vector<pbt::Pinned> pinned = {} ) {
	pbt::Engine e; e.cfg.property = id; e.cfg.rule = rule; e.cfg.assumptions = assumptions; for ( auto& s : suites ) e.suites.push_back( s ); e.pinned = pinned;
	return e.main( argc, argv );
}

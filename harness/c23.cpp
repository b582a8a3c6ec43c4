// C23 - The enumerations the library generates for itself hold exactly the rows of their tables.
#define GEN_DEFINE_LIBRARY_CODE_CONSTANTS
#define GX_BASE_CODEGEN
#include "src_main.hpp"
#include <dirent.h>
#include <spawn.h>
extern char** environ;
static std::string root, repo;
typedef std::vector<std::pair<std::string, std::string>> Rows;
// names of enumerators (unique, those that have to be there among them) with their spelling
static Rows rows( pbt::Gen& g, std::vector<std::string> must, int max ) {
	Rows r; std::set<std::string> seen; int n = 1 + (int)g.draw( g.coin( 1, 12 ) ? 200 : max );
	static const char* words[] = { "const", "int", "while", "virtual", "x", "GEN_API", "NA", "__NA__", "operator", "delete", "u8", "declspec", "a_b" };
	auto row = [&]( std::string id ) {
		if ( ! seen.insert( id ).second ) return; std::string k;
		switch ( g.weighted( { 5, 4, 3, 1 } ) ) {
		case 0: k = words[ g.draw( sizeof words / sizeof * words ) ]; break;
		case 1: k = g.str( "abcdefgh_XYZ", 1, 12 ); break;
		case 2: k = g.str( "+-*/=<>!&|,~()[].:;#'{} ", 1, 4 ); break;
		case 3: k = g.str( "abc <>_", 1, g.coin( 1, 5 ) ? 300 : 30 ); break;
		}
		while ( k.size() && k.front() == ' ' ) k.erase( 0, 1 ); while ( k.size() && k.back() == ' ' ) k.pop_back(); if ( k.empty() ) k = "e";
		r.push_back( { id, k } );
	};
	for ( int i = 0; i < n; ++i ) { std::string id( 1, "ABCDEFGXYZ"[ g.draw( 10 ) ] ); id += g.str( "abcdeXYZ_019", 0, n > max || ! g.coin( 1, 20 ) ? 9 : 150 ); if ( id.compare( 0, 3, "Num" ) == 0 || id.compare( 0, 4, "Attr" ) == 0 ) continue; row( id ); }
	for ( auto& m : must ) row( m );
	for ( size_t i = r.size(); i > 1; --i ) if ( g.coin() ) std::swap( r[ i - 1 ], r[ g.draw( i ) ] );
	return r;
}
static std::string csv( pbt::Gen& g, const Rows& r ) {
	std::string o, eol = g.coin( 1, 6 ) ? "\r\n" : "\n"; bool quotes = g.coin();
	for ( size_t i = 0; i < r.size(); ++i ) {
		auto field = [&]( const std::string& s ) { return ( quotes ? ! g.coin( 1, 6 ) : g.coin( 1, 6 ) ) || s.find_first_of( ",\n" ) != std::string::npos || s[ 0 ] == '\'' ? "\"" + s + "\"" : s; };
		o += ( g.coin( 1, 5 ) ? field( r[ i ].first ) : r[ i ].first ) + "," + std::string( g.draw( 4 ), ' ' ) + field( r[ i ].second ) + ( i + 1 == r.size() && g.coin( 1, 4 ) ? "" : eol ); if ( g.coin( 1, 30 ) && i + 1 < r.size() ) o += eol;
	}
	return o;
}
static void put( const std::string& p, const std::string& s ) { FILE* f = fopen( p.c_str(), "wb" ); if ( ! f || fwrite( s.data(), 1, s.size(), f ) != s.size() || fclose( f ) ) abort(); }
static std::string get( const std::string& p ) { return pbt::detail::read_file( p ); }
// exit status of a program, what it wrote in <out>
static int run( std::vector<std::string> a, const std::string& out ) {
	std::vector<char*> v; for ( auto& s : a ) v.push_back( (char*)s.c_str() ); v.push_back( nullptr );
	posix_spawn_file_actions_t fa; posix_spawn_file_actions_init( & fa ); posix_spawn_file_actions_addopen( & fa, 1, out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600 ); posix_spawn_file_actions_adddup2( & fa, 1, 2 );
	pid_t pid; int e = posix_spawnp( & pid, v[ 0 ], & fa, nullptr, v.data(), environ ); posix_spawn_file_actions_destroy( & fa ); if ( e ) abort();
	int st = 0; while ( waitpid( pid, & st, 0 ) < 0 && errno == EINTR ) {} return WIFEXITED( st ) ? WEXITSTATUS( st ) : 128 + WTERMSIG( st );
}
static const char* prelude = R"(
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
typedef unsigned int u32; typedef long ssize; typedef struct Str { char const* Ptr; ssize Len; } Str;
#define GEN_U32_MAX 0xffffffffU
#define local_persist static
#ifdef __cplusplus
#define forceinline inline
#define do_once_start { static bool done_once = false; if ( ! done_once ) { done_once = true;
#else
#define inline static __inline__
#define forceinline inline
#define enum_underlying( type ) : type
#define do_once_start { static bool done_once = false; if ( ! done_once ) { done_once = true;
#endif
#define do_once_end } }
/* many texts share a hash */
static u32 crc32( void const* p, ssize n ) { u32 h = 0; for ( ssize i = 0; i < n; ++i ) h += ( (unsigned char const*) p )[ i ]; return h & 63; }
static bool str_are_equal( Str a, Str b ) { return a.Len == b.Len && memcmp( a.Ptr, b.Ptr, (size_t) a.Len ) == 0; }
static void say( char const* what, long v, Str s ) { printf( "%s %ld ", what, v ); fwrite( s.Ptr, 1, (size_t) s.Len, stdout ); printf( "\n" ); }
static Str none( void ) { Str s = { "", 0 }; return s; }
static Str S( char* p ) { Str s = { p, (ssize) strlen( p ) }; return s; }
)";
static std::string quoted( const std::string& s ) { std::string o = "\""; for ( char c : s ) { if ( c == '"' || c == '\\' ) o += '\\'; o += c; } return o + "\""; }
struct T { int kind; bool c; Rows r, attrs; std::string file, afile; };
static void table( pbt::Gen& g ) {
	T t; t.kind = (int)g.draw( 4 ); t.c = g.coin();
	const char* pre[] = { "CT_", "Op_", "Spec_", "Tok_" }; const char* nums[] = { "CT_NumTypes", "Op_NumOps", "Spec_NumSpecifiers", "Tok_NumTokens" }; const char* type[] = { "CodeType", "Operator", "Specifier", "TokType" };
	static const std::vector<std::string> trailing = { "Const", "Final", "NoExceptions", "Override", "Pure", "Delete", "Volatile" };
	std::vector<std::string> must; if ( t.kind >= 2 ) must.push_back( "Invalid" ); if ( t.kind == 2 ) must.insert( must.end(), trailing.begin(), trailing.end() );
	t.r = rows( g, must, 20 ); if ( t.kind == 3 ) t.attrs = rows( g, {}, 6 ); t.file = csv( g, t.r ); t.afile = csv( g, t.attrs );
	pbt::describe( g, std::string( type[ t.kind ] ) + ( t.c ? " (C)" : " (C++)" ) + "\n" + t.file + ( t.kind == 3 ? "attributes\n" + t.afile : "" ) ); g.nontrivial = t.r.size() > 8; g.label( std::string( type[ t.kind ] ) + ( t.c ? " C" : " C++" ) ); g.label( pbt::fmt( "rows >= %d", t.r.size() > 64 ? 64 : t.r.size() > 16 ? 16 : 0 ) );
	fresh(); std::string base = root + "/" + std::to_string( getpid() ), p1 = base + ".csv", p2 = base + ".a.csv"; put( p1, t.file ); put( p2, t.afile ); long before = gx::failures;
	CodeBody b = t.kind == 0 ? gen_ecode( p1.c_str(), t.c ) : t.kind == 1 ? gen_eoperator( p1.c_str(), t.c ) : t.kind == 2 ? gen_especifier( p1.c_str(), t.c ) : gen_etoktype( p1.c_str(), p2.c_str(), t.c );
	unlink( p1.c_str() ); unlink( p2.c_str() ); PBT_CHECK( gx::failures == before, "generating reported a failure for\n%s", t.file.c_str() );
	std::string text = text_of( (Code)b ), src = prelude + text + "\n#define Entry( tok, text ) say( \"attribute\", (long) tok, S( (char*) text ) );\nint main( void )\n{\n", want; bool cpp = ! t.c;
	auto line = [&]( const std::string& call, long v, const std::string& s ) { src += "\t" + call + "\n"; want += s; (void)v; };
	std::vector<std::pair<std::string, std::string>> all; for ( auto& r : t.r ) all.push_back( { pre[ t.kind ] + r.first, r.second } ); for ( auto& r : t.attrs ) all.push_back( { "Tok_Attribute_" + r.first, r.second } );
	line( pbt::fmt( "say( \"size\", (long) sizeof( %s%s ), none() ); say( \"num\", (long) %s, none() );", cpp || t.kind < 4 ? "" : "enum ", type[ t.kind ], nums[ t.kind ] ), 0, pbt::fmt( "size 4 \nnum %zu \n", all.size() ) );
	if ( ! ( t.kind == 3 && cpp ) ) line( pbt::fmt( "say( \"max\", (long)(u32) %sUnderlyingType, none() );", pre[ t.kind ] ), 0, "max 4294967295 \n" );
	for ( size_t i = 0; i < all.size(); ++i ) {
		const char* e = all[ i ].first.c_str(); std::string id = t.r.size() > i ? t.r[ i ].first : "";
		auto text_is = [&]( const char* fn, const std::string& s ) { line( pbt::fmt( "say( \"%s\", (long) %s, %s( %s ) );", fn, e, fn, e ), (long)i, pbt::fmt( "%s %zu ", fn, i ) + s + "\n" ); };
		switch ( t.kind ) {
		case 0: text_is( "codetype_to_str", id ); text_is( "codetype_to_keyword_str", all[ i ].second ); if ( cpp ) { text_is( "to_str", id ); text_is( "to_keyword_str", all[ i ].second ); } break;
		case 1: text_is( "operator_to_str", all[ i ].second ); if ( cpp ) text_is( "to_str", all[ i ].second ); break;
		case 2: { text_is( "spec_to_str", all[ i ].second ); if ( cpp ) text_is( "to_str", all[ i ].second ); int tr = std::find( trailing.begin(), trailing.end(), id ) != trailing.end();
			line( pbt::fmt( "say( \"trailing\", spec_is_trailing( %s ), none() );", e ), 0, pbt::fmt( "trailing %d \n", tr ) ); if ( cpp ) line( pbt::fmt( "say( \"trailing\", is_trailing( %s ), none() );", e ), 0, pbt::fmt( "trailing %d \n", tr ) ); break; }
		case 3: text_is( "toktype_to_str", all[ i ].second ); break;
		}
	}
	if ( t.kind >= 2 ) {
		auto find = [&]( const std::string& s ) { size_t inv = 0; for ( size_t i = 0; i < all.size(); ++i ) { if ( all[ i ].second == s ) return i; if ( i < t.r.size() && t.r[ i ].first == "Invalid" ) inv = i; } return inv; };
		std::vector<std::string> w; for ( auto& a : all ) { w.push_back( a.second ); if ( g.coin( 1, 3 ) ) { std::string s = a.second; switch ( g.draw( 4 ) ) { case 0: s += g.pick( { "a", "=", " " } ); break; case 1: s.pop_back(); break; case 2: s = a.first; break; case 3: std::reverse( s.begin(), s.end() ); break; } w.push_back( s ); } } w.push_back( "" );
		for ( auto& s : w ) for ( const char* fn : { t.kind == 2 ? "str_to_specifier" : "str_to_toktype", t.kind == 2 && cpp ? "to_type" : "" } ) if ( * fn ) {
			// the text is not terminated
			line( "{ char k[] = " + quoted( s + "a" ) + "; Str v = { k, " + std::to_string( s.size() ) + " }; say( \"" + fn + "\", (long) " + fn + "( v ), v ); }", 0, std::string( fn ) + " " + std::to_string( find( s ) ) + " " + s + "\n" );
		}
	}
	if ( t.kind == 3 ) { line( "GEN_DEFINE_ATTRIBUTE_TOKENS", 0, "" ); for ( size_t i = 0; i < t.attrs.size(); ++i ) want += "attribute " + std::to_string( t.r.size() + i ) + " " + t.attrs[ i ].second + "\n"; }
	src += "\treturn 0;\n}\n"; std::string ext = t.c ? ".c" : ".cpp", s = base + ext, bin = base + ".bin", log = base + ".log"; put( s, src );
	int rc = run( { t.c ? "clang-18" : "clang++-18", t.c ? "-std=gnu11" : "-std=c++17", "-w", "-O0", s, "-o", bin }, log ); std::string msg = get( log ); unlink( s.c_str() );
	if ( rc ) { unlink( log.c_str() ); if ( msg.find( s + ":" ) == std::string::npos ) { fprintf( stderr, "%s\n", msg.c_str() ); throw pbt::Discard{}; } pbt::fail( "the generated text does not compile:\n%s\n%s\ngenerated from\n%s", msg.substr( 0, 2000 ).c_str(), text.c_str(), t.file.c_str() ); }
	rc = run( { bin }, log ); std::string have = get( log ); unlink( log.c_str() ); unlink( bin.c_str() ); PBT_CHECK( rc == 0, "the program made of the generated text ends with %d\n%s\ngenerated from\n%s", rc, text.c_str(), t.file.c_str() );
	PBT_CHECK( have == want, "the generated text says otherwise than its table\n%s\n%s\ngenerated from\n%s", diff( have, want ).c_str(), text.c_str(), t.file.c_str() );
}
// The enumerations of this library are those of the tables in base/enums.
static Rows committed( const char* name ) {
	Rows r; std::string s = get( repo + "/base/enums/" + name ), line; if ( s.empty() ) abort(); s += "\n";
	for ( size_t i = 0, b = 0; i < s.size(); ++i ) if ( s[ i ] == '\n' ) {
		line = s.substr( b, i - b ); b = i + 1; auto trim = []( std::string x ) { while ( x.size() && isspace( (unsigned char)x.back() ) ) x.pop_back(); while ( x.size() && isspace( (unsigned char)x.front() ) ) x.erase( 0, 1 ); if ( x.size() > 1 && x[ 0 ] == '"' && x.back() == '"' ) x = x.substr( 1, x.size() - 2 ); return x; };
		if ( trim( line ).empty() ) continue; size_t c = line.find( ',' ); if ( c == std::string::npos ) abort(); r.push_back( { trim( line.substr( 0, c ) ), trim( line.substr( c + 1 ) ) } );
	}
	return r;
}
static void current( pbt::Gen& g ) {
	static Rows t[ 5 ]; if ( t[ 0 ].empty() ) { const char* f[] = { "ECodeTypes.csv", "EOperator.csv", "ESpecifier.csv", "ETokType.csv", "AttributeTokens.csv" }; for ( int i = 0; i < 5; ++i ) t[ i ] = committed( f[ i ] ); t[ 3 ].insert( t[ 3 ].end(), t[ 4 ].begin(), t[ 4 ].end() ); }
	static const int nums[] = { CT_NumTypes, Op_NumOps, Spec_NumSpecifiers, Tok_NumTokens }; static const char* name[] = { "CodeType", "Operator", "Specifier", "TokType" };
	int k = (int)g.draw( 4 ), i = (int)g.draw( t[ k ].size() ); auto& r = t[ k ][ i ]; pbt::describe( g, pbt::fmt( "%s %d %s %s", name[ k ], i, r.first.c_str(), r.second.c_str() ) ); g.nontrivial = true; g.label( name[ k ] );
	PBT_CHECK( nums[ k ] == (int)t[ k ].size(), "%s has %d enumerators and its table %zu", name[ k ], nums[ k ], t[ k ].size() );
	std::string have = gx::X( k == 0 ? codetype_to_keyword_str( (CodeType)i ) : k == 1 ? operator_to_str( (Operator)i ) : k == 2 ? spec_to_str( (Specifier)i ) : toktype_to_str( (TokType)i ) );
	PBT_CHECK( have == r.second, "%s %d (%s) is '%s' and not '%s'", name[ k ], i, r.first.c_str(), have.c_str(), r.second.c_str() ); if ( k == 0 ) PBT_CHECK( gx::X( codetype_to_str( (CodeType)i ) ) == r.first, "CodeType %d is '%s' and not '%s'", i, gx::X( codetype_to_str( (CodeType)i ) ).c_str(), r.first.c_str() );
}
int main( int argc, char** argv ) {
	char dir[] = "/tmp/pbt-c23-XXXXXX"; if ( ! mkdtemp( dir ) ) return 3; root = dir; repo = getenv( "GENCPP_REPO" ) ? getenv( "GENCPP_REPO" ) : "/repo";
	int rc = run_main( argc, argv, "C23", "a table of more than eight rows; a row of the library's own tables", { { "tables", table, 600, 20000, 20, 60 }, { "current", current, 1500, 5000, 300, 10 } } );
	if ( DIR* d = opendir( dir ) ) { while ( dirent* e = readdir( d ) ) if ( e->d_name[ 0 ] != '.' ) unlink( ( root + "/" + e->d_name ).c_str() ); closedir( d ); } rmdir( dir ); return rc;
}

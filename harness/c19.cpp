// C19 - the generated libraries (C++ single header, segmented and Unreal variants, C library as single header and as segments) are
// the library: the same program of calls leaves the same log in base/ and in each of them. The libraries are generated and compiled
// by c19.pre.sh; the programs are bytes, interpreted by c19/ops.inl, which is compiled into each library and into this harness.
#include "src_main.hpp"
#include <dlfcn.h>
#include <fstream>
#include <sstream>
#define cast( T, v ) ( gen::tmpl_cast<T>( v ) )
#define VP_EXPORT static
#include "helpers/push_container_defines.inline.hpp"
#include "c19/cpp.inl"
#include "helpers/pop_container_defines.inline.hpp"
#undef cast
typedef const char* (*Run)( const unsigned char*, size_t, vp_Walk );
struct Lib { std::string name; bool c, other_enums; Run run; };    // the variant for Unreal has specifiers of its own: its nodes cannot be walked from here
static std::vector<Lib> libs;
static void load() {
	if ( libs.size() ) return; char p[ 4096 ]; ssize_t n = readlink( "/proc/self/exe", p, sizeof p - 1 ); p[ n > 0 ? n : 0 ] = 0; std::string dir( p ); dir = dir.substr( 0, dir.rfind( '/' ) ) + "/c19.aux/so/";
	for ( const char* l : { "singleheader", "segmented", "unreal", "c_singleheader", "c_segmented" } ) {
		void* h = dlopen( ( dir + l + ".so" ).c_str(), RTLD_NOW | RTLD_LOCAL );
		if ( ! h ) { std::ifstream f( dir + l + ".log" ); std::stringstream t; t << f.rdbuf(); PBT_CHECK( false, "the library %s cannot be generated or does not compile\n%s\n%.1500s", l, dlerror(), t.str().c_str() ); }
		Run r = (Run)dlsym( h, "vp_run" ); PBT_CHECK( r, "no entry point in %s", l ); libs.push_back( Lib{ l, l[ 0 ] == 'c', l[ 0 ] == 'u', r } );
	}
}
// The C library spells the library's macros with its prefix; a program speaks of them by that name there, and the log is compared without it.
static const std::set<std::string> prefixed = { "enum_underlying", "global", "internal", "local_persist", "forceinline", "neverinline" };
static bool wordc( char c ) { return isalnum( (unsigned char)c ) || c == '_'; }
static std::string words( const std::string& s, std::string (*f)( const std::string& ) ) { std::string o; for ( size_t i = 0; i < s.size(); ) { if ( ! wordc( s[ i ] ) ) { o += s[ i++ ]; continue; } size_t j = i; while ( j < s.size() && wordc( s[ j ] ) ) ++j; o += f( s.substr( i, j - i ) ); i = j; } return o; }
static std::string to_c( const std::string& s ) { return words( s, []( const std::string& w ) { return prefixed.count( w ) ? "gen_" + w : w; } ); }
static std::string all( std::string s, const std::string& a, const std::string& b ) { for ( size_t i = 0; ( i = s.find( a, i ) ) != std::string::npos; i += b.size() ) s.replace( i, a.size(), b ); return s; }
static std::string from_c( std::string s ) { for ( auto& w : prefixed ) s = all( s, "gen_" + w, w ); for ( const char* w : { "Code", "Operator" } ) s = all( s, std::string( "gen_" ) + w, w ); return s; }      // the last two occur in names of kinds and messages
// Unreal's spelling
static std::string to_ue( const std::string& s ) { return words( s, []( const std::string& w ) { return w == "forceinline" ? "FORCEINLINE" : w; } ); }
static std::string from_ue( const std::string& s ) { return all( s, "FORCEINLINE", "forceinline" ); }
struct Prog {
	std::string cpp, c, ue, shown;
	size_t at[ 3 ];                  // where the length of the last operation's arguments is
	Prog& op( int o ) { close(); int i = 0; for ( auto* b : { &cpp, &c, &ue } ) { * b += (char)o; at[ i++ ] = b->size(); * b += std::string( 2, '\0' ); } shown += "\n" + std::to_string( o ); return *this; }
	void close() { int i = 0; for ( auto* b : { &cpp, &c, &ue } ) { if ( ! b->empty() ) { size_t n = b->size() - at[ i ] - 2; ( * b )[ at[ i ] ] = (char)( n >> 8 ); ( * b )[ at[ i ] + 1 ] = (char)n; } ++i; } }
	Prog& u( int v ) { for ( auto* b : { &cpp, &c, &ue } ) * b += (char)v; shown += " " + std::to_string( v & 255 ); return *this; }
	static void put( std::string& b, const std::string& s ) { b += (char)( s.size() >> 8 ); b += (char)s.size(); b += s; }
	Prog& s( const std::string& x, bool is_code = false ) { put( cpp, x ); put( c, is_code ? to_c( x ) : x ); put( ue, is_code ? to_ue( x ) : x ); shown += " '" + x + "'"; return *this; }
};
static const char* hook( void* ast ) { static std::string s; s = "facts " + src::walk( Code{ (AST*)ast } ) + "\n"; return s.c_str(); }
static void run( pbt::Gen& g, Prog& p, bool facts ) {
	p.close(); load(); pbt::describe( g, p.shown );
	std::string with = vp_run( (const unsigned char*)p.cpp.data(), p.cpp.size(), facts ? hook : nullptr ), without = facts ? vp_run( (const unsigned char*)p.cpp.data(), p.cpp.size(), nullptr ) : with;
	if ( facts ) fresh();                // walk copies
	for ( auto& l : libs ) {
		const std::string& b = l.c ? p.c : l.other_enums ? p.ue : p.cpp; std::string have = l.run( (const unsigned char*)b.data(), b.size(), facts && ! l.other_enums ? hook : nullptr ), w = l.other_enums ? without : with; if ( l.c ) have = from_c( have ), w = from_c( w ); if ( l.other_enums ) have = from_ue( have );
		PBT_CHECK( have == w, "the generated library %s behaves otherwise than base/\n%s\nprogram (opcode and arguments of c19/ops.inl):%s", l.name.c_str(), diff( have, w ).c_str(), p.shown.c_str() );
	}
}
// --- parsing
static D top( SG& s ) { return s.decl( 0 ); }
static const struct Kind { int op; D (*make)( SG& ); } kinds[] = {
	{ 0, []( SG& s ) { return s.cls_( "class", 2 ); } }, { 13, []( SG& s ) { return s.cls_( "struct", 2 ); } }, { 17, []( SG& s ) { return s.union_( 1 ); } }, { 4, []( SG& s ) { return s.enum_(); } }, { 16, []( SG& s ) { return s.typedef_(); } },
	{ 18, []( SG& s ) { return s.using_( true ); } }, { 19, []( SG& s ) { return s.var( false ); } }, { 8, []( SG& s ) { return s.fn( false ); } }, { 11, []( SG& s ) { return s.op( false ); } }, { 10, []( SG& s ) { return s.ns_( 2 ); } }, { 6, []( SG& s ) { return s.extern_(); } },
	{ 14, []( SG& s ) { return s.tmpl( false ); } }, { 7, []( SG& s ) { return s.friend_(); } }, { 12, []( SG& s ) { return s.opcast( false ); } }, { 2, []( SG& s ) { return s.pp( 5 ); } }, { 15, []( SG& s ) { auto t = s.type( true ); D d; d.cat( t.d ); d.f = t.f; return d; } } };
static void source( pbt::Gen& g ) {
	SG sg( g ); Prog p; int n = 1 + (int)g.draw( 4 ); size_t toks = 0; std::vector<int> used;
	while ( n-- ) {
		std::string text; int op = 9;
		if ( g.coin( 1, 2 ) ) { D d = sg.file( 1 + (int)g.draw( 4 ) ); text = src::render( & g, d.s, Style{ (int)g.draw( 3 ) } ); toks += d.s.size(); labels( g, d ); }
		else { auto& k = kinds[ g.draw( sizeof kinds / sizeof *kinds ) ]; D d = k.make( sg ); text = src::render( & g, d.s, Style{ (int)g.draw( 3 ) } ); toks += d.s.size(); op = k.op; labels( g, d ); }
		if ( g.coin( 1, 12 ) && text.size() > 2 ) { text = text.substr( 0, g.draw( text.size() ) ); g.label( "cut" ); }
		int r = (int)g.draw( 23 ); p.op( 1 ).u( op ).s( text, true ).u( r ); used.push_back( r );
		if ( g.coin( 1, 3 ) ) { int q = (int)g.draw( 23 ); p.op( 17 ).u( r ).u( q ); used.push_back( q ); }
		if ( g.coin( 1, 3 ) ) p.op( 19 ).u( r ); if ( g.coin( 1, 3 ) ) p.op( 30 ).u( r ); if ( g.coin( 1, 6 ) ) p.op( 32 ).u( 0 ).u( r ).u( 0 ).s( "" ); if ( op == 9 && g.coin( 1, 6 ) ) p.op( 33 ).s( text, true ).u( r );
		if ( g.coin( 1, 3 ) ) p.op( 18 ).u( g.pick( used ) ).u( g.pick( used ) );
	}
	g.nontrivial = toks > 12; run( g, p, true );
}
// --- upfront construction: the registers hold what was made, the kinds of which are known here
static void upfront( pbt::Gen& g ) {
	Prog p; std::map<int, char> kind; static int uniq; uniq = 0;
	auto reg = [ & ]( const char* ks ) { std::vector<int> v; for ( auto& r : kind ) if ( strchr( ks, r.second ) ) v.push_back( r.first ); return v.empty() || g.coin( 1, 25 ) ? 23 : g.pick( v ); };
	auto opt = [ & ]( const char* ks ) { return g.coin( 1, 2 ) ? 23 : reg( ks ); };
	auto name = [ & ] { return std::string( g.pick( { "a", "Foo", "value_x", "N", "do_it", "T1", "_q" } ) ) + ( g.coin() ? std::to_string( uniq++ ) : "" ); };
	auto dst = [ & ]( char k ) { int r = (int)g.draw( 20 ); p.u( r ); kind[ r ] = k; };
	auto spec = [ & ]( int s ) { p.s( gx::X( spec_to_str( (Specifier)s ) ), true ); };
	auto specs = [ & ]( std::vector<int> of ) { p.op( 5 ); int n = 1 + (int)g.draw( 3 ); if ( g.coin( 1, 8 ) ) of = { Spec_Const, Spec_Static, Spec_Inline, Spec_Virtual, Spec_Ptr, Spec_Ref, Spec_Thread_Local, Spec_Global, Spec_Local_Persist, Spec_Mutable, Spec_Final }; p.u( n - 1 ); for ( int i = 0; i < 3; ++i ) spec( g.pick( of ) ); p.u( (int)g.draw( 3 ) ); };
	int n = 4 + (int)g.draw( 40 ), made = 0;
	p.op( 2 ).s( "int" ).u( 23 ).u( 23 ).u( 23 ).u( 0 ).u( 0 ); kind[ 0 ] = 'T';
	while ( n-- ) {
		++made;
		switch ( g.draw( 32 ) ) {
		case 0: case 1: { p.op( 2 ).s( g.pick( { "int", "float", "Foo", "A::B", "V<int>", "unsigned char" } ) ); p.u( g.coin( 1, 6 ) ? reg( "q" ) : 23 ).u( opt( "t" ) ).u( g.coin( 1, 5 ) ? reg( "A" ) : 23 ).u( g.coin( 1, 4 ) ? (int)g.draw( 5 ) : 0 ); dst( 'T' ); g.label( "type" ); } break;
		case 2: specs( { Spec_Const, Spec_Ptr, Spec_Ref, Spec_RValue, Spec_Volatile, Spec_Ptr } ); dst( 't' ); g.label( "specs" ); break;
		case 3: specs( { Spec_Static, Spec_Inline, Spec_Const, Spec_Virtual, Spec_ForceInline, Spec_NeverInline, Spec_Override, Spec_Constexpr } ); dst( 'f' ); g.label( "specs" ); break;
		case 4: specs( { Spec_Static, Spec_Inline, Spec_Constexpr, Spec_Mutable, Spec_Thread_Local, Spec_Volatile, Spec_Internal_Linkage, Spec_Global } ); dst( 'v' ); g.label( "specs" ); break;
		case 5: case 6: p.op( 3 ).u( reg( "T" ) ).s( name() ).u( opt( "q" ) ).u( (int)g.draw( 2 ) ); dst( 'P' ); g.label( "param" ); break;
		case 7: p.op( 4 ).u( (int)g.draw( 3 ) ).u( reg( "P" ) ).u( reg( "P" ) ).u( reg( "P" ) ).u( (int)g.draw( 2 ) ); dst( 'p' ); g.label( "params" ); break;
		case 8: p.op( 6 ).s( g.pick( { "[[nodiscard]]", "alignas(8)", "API" } ) ).u( 0 ); dst( 'A' ); break;
		case 9: p.op( 6 ).s( g.pick( { " one line", "two\nlines", "a\n\nb\n", "" } ) ).u( 1 ); dst( 'L' ); g.label( "comment" ); break;
		case 10: case 11: p.op( 6 ).s( g.pick( { "42", "a + b", "\"text\"", "{ 1, 2 }", "sizeof(int)" } ) ).u( 2 ); dst( g.coin() ? 'q' : 'U' ); break;
		case 12: case 13: p.op( 7 ).u( reg( "T" ) ).s( name() ).u( opt( "q" ) ).u( opt( "v" ) ).u( g.coin( 1, 5 ) ? reg( "A" ) : 23 ).u( (int)g.draw( 4 ) ); dst( 'V' ); g.label( "variable" ); break;
		case 14: case 15: p.op( 8 ).s( name() ).u( opt( "Pp" ) ).u( opt( "T" ) ).u( opt( "b" ) ).u( opt( "f" ) ).u( g.coin( 1, 5 ) ? reg( "A" ) : 23 ).u( (int)g.draw( 4 ) ); dst( 'F' ); g.label( "function" ); break;
		case 16: case 17: { int cls = (int)g.draw( 2 ), bases = (int)g.draw( 4 );    // bases form a list through their nodes: each class has its own
			for ( int i = 0; i < bases; ++i ) p.op( 2 ).s( name() ).u( 23 ).u( 23 ).u( 23 ).u( 0 ).u( 20 + i );
			p.op( 9 ).s( name() ).u( cls ? opt( "c" ) : opt( "s" ) ).u( bases ? 20 : 23 ).u( (int)g.draw( 4 ) ).u( g.coin( 1, 5 ) ? reg( "A" ) : 23 ).u( 21 ).u( 22 ).u( bases ? bases - 1 : 0 ).u( 23 ).u( cls ? ( g.coin() ? 1 : 3 ) : ( g.coin() ? 0 : 2 ) ); dst( cls ? 'C' : 'S' ); g.label( cls ? "class" : "struct" ); } break;
		case 18: p.op( 10 ).s( name() ).u( opt( "e" ) ).u( opt( "T" ) ).u( g.coin( 1, 5 ) ? reg( "A" ) : 23 ).u( (int)g.draw( 4 ) ); dst( 'E' ); g.label( "enum" ); break;
		case 19: { int k = (int)g.draw( 3 ); p.op( 11 ).s( k == 2 ? "\"C\"" : name() ).u( reg( k == 0 ? "u" : k == 1 ? "n" : "x" ) ).u( g.coin( 1, 5 ) ? reg( "A" ) : 23 ).u( k ); dst( k == 0 ? 'S' : 'W' ); g.label( k == 0 ? "union" : k == 1 ? "namespace" : "extern" ); } break;
		case 20: { int k = (int)g.draw( 4 ); p.op( 12 ).s( name() ).u( reg( k == 0 ? "TSCE" : k == 1 ? "T" : "CF" ) ).u( g.coin( 1, 5 ) ? reg( "A" ) : 23 ).u( k ); dst( k == 3 ? 'R' : 'W' ); g.label( k == 0 ? "typedef" : k < 3 ? "using" : "friend" ); } break;
		case 21: { int k = (int)g.draw( 6 ); p.op( 13 ).s( k == 3 ? "return a;" : k == 4 ? "X_Y" : name() ).s( "" ).u( k ); if ( k == 4 ) p.u( (int)g.draw( 4 ) ); dst( k == 3 ? 'X' : 'L' ); } break;
		case 22: p.op( 14 ).s( g.pick( { "M", "M1", "M2" } ) ).s( g.pick( { "1", "( a )", "do_it()" } ) ).u( (int)g.draw( 3 ) ).u( 1 ); dst( 'L' ); g.label( "define" ); break;
		case 23: case 24: case 25: case 26: {
			int k = (int)g.draw( 16 ), n = (int)g.draw( 3 ); static const char* in[] = { "VFLUROKW", "U", "VFLW", "VFLW", "UVXL", "VFCSELW", "VFCSELW", "VFLUROW", "VLU" }; static const char out[] = "ce.xbgnsu"; static const int base[] = { 0, 1, 4, 5, 6, 7, 8 }; int b = k < 9 ? k : base[ k - 9 ];
			p.op( 15 ).u( k ).u( n ); for ( int i = 0; i < 3; ++i ) p.u( reg( in[ b ] ) ); dst( out[ b ] ); g.label( "body" ); break; }
		case 27: p.op( 16 ).u( reg( "cbgns" ) ).u( reg( "VLU" ) ); g.label( "append" ); break;
		case 28: switch ( g.draw( 9 ) ) { case 6: p.op( 30 ).u( reg( "TVFCSELWUPptfvAUcebgnsuxOR" ) ); g.label( "select" ); break; case 7: p.op( 31 ).u( reg( "Pptfv" ) ); g.label( "iterate" ); break; case 8: { int n = (int)g.draw( 3 ); p.op( 32 ).u( n ); for ( int i = 0; i <= n; ++i ) p.u( reg( "TVFCSELWUbgns" ) ).u( (int)g.draw( 3 ) ).s( name() ); g.label( "file" ); } break; case 0: { int r = reg( "TVFCSELWUPf" ); char k = kind.count( r ) ? kind[ r ] : '-'; p.op( 17 ).u( r ); dst( k ); g.label( "duplicate" ); } break; case 1: p.op( 18 ).u( reg( "TVFCSELWUPptfv" ) ).u( reg( "TVFCSELWUPptfv" ) ); g.label( "equal" ); break; case 2: p.op( 19 ).u( reg( "cebgnsux" ) ); g.label( "iterate" ); break; case 3: p.op( 20 ).u( reg( "Pp" ) ); break; case 4: p.op( 21 ).u( reg( "fvt" ) ); spec( g.pick( std::vector<int>{ (int)Spec_Const, (int)Spec_Static, (int)Spec_Inline, (int)Spec_Virtual, (int)Spec_Ptr, (int)Spec_Ref, (int)Spec_Mutable, (int)Spec_Override, (int)Spec_Constexpr } ) ); p.u( (int)g.draw( 4 ) ); g.label( "specs.edit" ); break; default: p.op( 26 ).u( reg( "CS" ) ).u( reg( "T" ) ); g.label( "interface" ); } break;
		case 29: { int two = (int)g.draw( 3 ) != 0; std::string s = g.pick( { "int <a>;", "<name> <a>( <name> );", "x", "< <a><<a>", "<b>" } ); if ( two ) p.op( 22 ).s( s ).s( "a" ).s( name() ).u( 1 ).s( name() ); else p.op( 22 ).s( s ).s( "a" ).s( "" ).u( 0 ).s( name() ); dst( 'U' ); g.label( "token_fmt" ); } break;
		case 30: if ( g.coin() ) { p.op( 23 ).u( reg( "Pp" ) ).u( reg( "CFVS" ) ).u( (int)g.draw( 2 ) ); dst( 'W' ); g.label( "template" ); } else { p.op( 24 ).u( (int)g.draw( Op_NumOps - 1 ) ).s( g.coin() ? "" : "NS" ).u( opt( "Pp" ) ).u( reg( "T" ) ).u( opt( "b" ) ).u( opt( "f" ) ); dst( 'O' ); g.label( "operator" ); } break;
		default: switch ( g.draw( 3 ) ) { case 0: { int k = (int)g.draw( 3 ); p.op( 25 ).u( reg( "T" ) ).u( opt( "b" ) ).u( k == 2 ? 23 : opt( "f" ) ).u( k ); if ( k == 1 ) p.u( opt( "Pp" ) ).u( g.coin( 1, 4 ) ? reg( "q" ) : 23 ); dst( 'K' ); g.label( "ctor/dtor/cast" ); } break; case 1: p.op( 28 ).s( name() ); g.label( "cache" ); break; default: p.op( 29 ).s( name() ).u( (int)g.draw( 5 ) ).u( (int)g.draw( 4 ) ); g.label( "macro" ); }
		}
	}
	g.nontrivial = made > 10; run( g, p, false );
}
// --- containers and strings
static void containers( pbt::Gen& g ) {
	Prog p; int n = 1 + (int)g.draw( 60 ), mode = (int)g.draw( 5 );
	for ( int i = 0; i < n; ++i ) {
		int what = mode == 3 ? (int)g.draw( 4 ) : mode == 4 ? 3 : mode;
		if ( what == 0 ) switch ( g.draw( 12 ) ) {
			case 0: p.op( 40 ).u( (int)g.draw( 256 ) ); break;
			case 1: case 8: { int k = 1 + (int)g.draw( 5 ); p.op( 41 ).u( k ); while ( k-- ) p.u( (int)g.draw( 256 ) ); } break;
			case 2: p.op( 42 ).u( (int)g.draw( 256 ) ).u( (int)g.draw( 256 ) ); break;
			case 3: { int k = 1 + (int)g.draw( 5 ); p.op( 43 ).u( k ); while ( k-- ) p.u( (int)g.draw( 256 ) ); p.u( (int)g.draw( 256 ) ); } break;
			case 4: p.op( 44 ); break; case 5: p.op( 45 ).u( (int)g.draw( 256 ) ); break; case 6: p.op( 46 ).u( 1 + (int)g.draw( 39 ) ); break; case 7: p.op( g.coin() ? 47 : 48 ).u( 1 + (int)g.draw( 39 ) ); break;
			case 9: p.op( 49 ).u( (int)g.draw( 256 ) ).u( (int)g.draw( 256 ) ).u( (int)g.draw( 256 ) ); break; case 10: if ( g.coin( 1, 4 ) ) p.op( 50 ); break; default: if ( g.coin( 1, 4 ) ) p.op( 51 ).u( 0 ).u( 1 + (int)g.draw( 29 ) ); }
		else if ( what == 1 ) switch ( g.draw( 10 ) ) {
			case 0: case 1: case 2: case 3: case 4: p.op( 60 ).u( (int)g.draw( 48 ) * (int)g.draw( 6 ) ).s( std::string( g.draw( 40 ), 'x' ) ); break;
			case 5: p.op( 61 ).u( (int)g.draw( 48 ) * (int)g.draw( 6 ) ); break; case 6: p.op( 62 ).u( (int)g.draw( 48 ) * (int)g.draw( 6 ) ); break; case 7: p.op( 63 ); break; case 8: if ( g.coin( 1, 3 ) ) p.op( 64 ); else p.op( 65 ); break; default: if ( g.coin( 1, 4 ) ) p.op( 66 ); }
		else if ( what == 3 ) switch ( g.draw( 8 ) ) {
			case 0: { int n = (int)g.draw( 8 ); p.op( 52 ).u( (int)g.draw( 256 ) ).u( n ); for ( int i = 0; i <= n; ++i ) p.u( (int)g.draw( 256 ) ).u( (int)g.draw( 6 ) ); } break;
			case 1: { int n = (int)g.draw( 12 ); p.op( 53 ).u( (int)g.draw( 6 ) ).u( (int)g.draw( 64 ) ).u( n ); for ( int i = 0; i <= n; ++i ) p.u( (int)g.draw( 2 ) ); } break;
			case 2: p.op( 54 ).s( g.str( "abcxyz019\n\xff", 0, 30 ) ); break;
			case 3: p.op( 55 ).s( g.pick( { "", "-", "0x", "0", " " } ) + g.str( "0123456789abcdefXx.eE", 0, 12 ) ).u( (int)g.draw( 15 ) ); break;
			case 4: p.op( 56 ).s( g.str( "aAbBzZ 09\t_", 0, 12 ) ).s( g.str( "aAbB", 0, 6 ) ); break;
			case 5: p.op( 57 ).s( g.str( "ab %d", 0, 12 ) ).u( (int)g.draw( 256 ) ); break;
			case 6: p.op( 58 ).s( g.str( "ab \t\n\r", 0, 9 ) ).s( g.str( "ab ", 0, 3 ) ); break;
			default: { std::string c; for ( int n = 1 + (int)g.draw( 5 ); n--; ) c += g.str( "ab1_ ", 1, 6 ) + "," + g.pick( { " ", "", "\t" } ) + g.str( "xy2", 1, 6 ) + "\n"; p.op( 34 ).s( c ); g.label( "csv" ); } }
		else { std::string s = g.str( "ab <>%\t\n\\\"X", 0, 12 ); switch ( g.draw( 11 ) ) {
			case 0: p.op( 70 ).s( s ); break; case 1: p.op( 71 ).s( s ); break; case 2: p.op( 72 ).u( 1 + (int)g.draw( 126 ) ); break; case 3: p.op( 73 ).s( s ).s( g.str( "ab%x", 0, 6 ) ).u( (int)g.draw( 256 ) ); break; case 4: p.op( 74 ).s( g.str( "ab \t\n", 1, 3 ) ); break;
			case 5: p.op( 75 ); break; case 6: p.op( 76 ); break; case 7: p.op( 77 ); break; case 8: p.op( 78 ).s( s ).s( g.coin() ? s.substr( 0, s.size() / 2 ) : g.str( "ab ", 1, 3 ) ); break; default: p.op( 79 ).u( (int)g.draw( 4 ) ); } }
	}
	if ( mode == 1 || mode == 3 ) p.op( 63 ); g.label( mode == 0 ? "array" : mode == 1 ? "hashtable" : mode == 2 ? "string" : mode == 3 ? "mixed" : "other" ); g.nontrivial = n > 8; run( g, p, false );
}
int main( int argc, char** argv ) {
	return run_main( argc, argv, "C19", "a program of more than 12 tokens of source, 10 constructor calls or 8 container operations", {
		{ "source", source, 9000, 120000, 100, 20 }, { "upfront", upfront, 10000, 150000, 100, 20 }, { "containers", containers, 8000, 120000, 100, 15 } },
		{ "generated with the generators built for Linux; scripts/helpers/refactor.exe is stood in for by c19/bin/refactor (word and namespace rules), which reproduces the C library made by the project's own build under Wine" } );
}

// Parser robustness: every parse entry point on generated, mutated and truncated source text.  The source is handed
// over as a slice of an exactly sized heap block (AddressSanitizer sees any read outside it).  Oracle: the call
// returns (a node or the invalid code), what it returns serializes and duplicates, the input is untouched, and the
// context afterwards parses a known source to the same text as before.
#include "gencpp.hpp"
using namespace gen;
using pbt::fmt; using pbt::show;

static const char* corpus[] = {
	"int a;", "static const unsigned long long int* const& x = 5;", "inline constexpr int f( int a, char const* b = \"x\", ... ) { return a + +b; }",
	"template< typename T, int N = 3 > struct A : public B<C<D>>, private E { int x; private: A( int a ) : x( a ), y( 2 ) {} virtual ~A(); };",
	"enum class E : unsigned int { A, B = 3, C = ( 1 << 2 ), };", "union U { int a; float b; struct D { int c; } d; };", "namespace A { namespace B { int x; } }",
	"extern \"C\" { int f(); }", "typedef int (*fn)( int a, char b );", "typedef struct S { int x; } S_t;", "using X = A<B>*;", "using namespace std;", "int a = 1, b = 2, *c;",
	"int a[3][4];", "struct F { int a : 3; friend class X; operator bool() const; };", "A::A( int x ) : y(x) { }", "A::~A() { }", "bool A::operator==( A const& o ) const { return true; }",
	"template<> int f<3>( int );", "[[nodiscard]] int f();", "__attribute__((x)) int f();", "static_assert( sizeof(int) == 4, \"x\" );", "void (*fp)( int );", "int f( void (*cb)( int, char ), int b );",
	"struct { int x; } v;", "typedef enum { A, B } E;", "A operator+( A a, B b );", "A& operator++();", "int&& f( A&& a, B... b );", "template<typename... Ts> void f( Ts... ts );",
	"struct S { int a : 3; int b, c; static int d; void f() const override final; virtual void g() = 0; friend class X; using T = int; typedef int U; };",
	"#define M( a, b ) a ## b\n", "#define N 5 \\\n + 6\n", "#if defined( A ) && B\nint x;\n#elif C\n#else\n#endif\n", "#pragma once\n#include \"a.hpp\"\n#include <b>\n", "// comment\n/* block\n comment */ int x; // inline\n",
	"M( 1, 2 ) int y;", "STMT( a ) { int b; }", "TYPE x;", "EXPR int f();", "FN_TYPE( int ) z;", "BODY( a ) { return; }", "void f( EXPR int a, FEXPR( 1 ) int b );", "A::operator int() const { return 0; }", "void* operator new( size_t n ); void operator delete[]( void* p );",
	"enum E { A, B, #if X\nC,\n#endif\n};", "class C final : public virtual D { public: explicit C( int ) = delete; protected: int m; };", "char c = '\\''; char const* s = \"a\\\"b\\\\\";", "export struct S { int a; };", "module;", "__declspec(dllexport) int g();", "decltype(x) y;", "int A::* p;", "void (A::*mf)( int );", "[[a]] [[b]] static inline int q;", "struct A a; struct A* b; struct A c[3]; struct A f( int x ) { return x; }" };
static const char* pieces[] = { "{", "}", "(", ")", "[", "]", "<", ">", ">>", ";", ",", ":", "::", "*", "&", "&&", "~", "=", "==", "->", "...", "#", "#define", "#if", "#endif", "#include", "#pragma", "\\", "\\\n", "\"", "'", "/*", "*/", "//", "\n", "\r\n", "\t", "operator", "template", "typedef", "using", "namespace", "struct", "class", "enum", "union", "friend", "extern", "export", "module", "import", "const", "static", "inline", "virtual", "int", "unsigned", "char", "A", "B", "x", "1", "0x1F", "1.5f", "\"s\"", "'c'", "new", "delete", "final", "override", "decltype", "typename", "[[", "]]", "__attribute__", "__declspec", "STMT", "EXPR", "TYPE", "FN_TYPE", "BODY", "FEXPR", "ATTR", "static_assert", "public", "private:", "volatile", "restrict", "auto", "void", "consteval", "= 0", "?", "!", "|", "%", "^", "@", "$", "`", "\x01", "\xff", "." };

static std::vector<std::string> split( const std::string& s ) {
	std::vector<std::string> v; size_t i = 0;
	while ( i < s.size() ) { size_t b = i; auto w = [&]( char c ) { return isalnum( (unsigned char)c ) || c == '_'; }; if ( w( s[ i ] ) ) while ( i < s.size() && w( s[ i ] ) ) ++i; else ++i; v.push_back( s.substr( b, i - b ) ); }
	return v;
}
static std::string source( pbt::Gen& g, std::string& how ) {
	const size_t nc = sizeof corpus / sizeof *corpus, np = sizeof pieces / sizeof *pieces;
	std::vector<std::string> t;
	if ( g.coin( 1, 6 ) ) { how = "soup"; int n = (int)g.range( 0, 30 ); while ( n-- ) { t.push_back( pieces[ g.draw( np ) ] ); if ( g.coin( 2, 3 ) ) t.push_back( " " ); } }
	else {
		how = "mutated"; int n = (int)g.range( 1, 3 ); while ( n-- ) { auto s = split( corpus[ g.draw( nc ) ] ); t.insert( t.end(), s.begin(), s.end() ); if ( g.coin() ) t.push_back( g.pick( { "\n", " " } ) ); }
		int m = (int)g.range( 0, 5 ); if ( ! m ) how = "plain";
		while ( m-- && t.size() ) {
			size_t i = g.draw( t.size() );
			switch ( g.draw( 8 ) ) {
			case 0: t.erase( t.begin() + i ); break;
			case 1: t.insert( t.begin() + i, pieces[ g.draw( np ) ] ); break;
			case 2: t[ i ] = pieces[ g.draw( np ) ]; break;
			case 3: t.insert( t.begin() + i, t[ i ] ); break;
			case 4: { size_t j = g.draw( t.size() ); std::swap( t[ i ], t[ j ] ); break; }
			case 5: t.resize( i ); how = "truncated"; break;
			case 6: { size_t n = std::min<size_t>( t.size() - i, g.draw( 8 ) ); std::vector<std::string> c( t.begin() + i, t.begin() + i + n ); size_t at = g.draw( t.size() ); t.insert( t.begin() + at, c.begin(), c.end() ); break; }
			case 7: { size_t n = std::min<size_t>( t.size() - i, g.draw( 8 ) ); t.erase( t.begin() + i, t.begin() + i + n ); break; }
			}
		}
	}
	std::string o; for ( auto& x : t ) o += x; return o;
}

static const char* entries[] = { "global_body", "class", "constructor", "define", "destructor", "enum", "export_body", "extern_link", "friend", "function", "namespace", "operator", "operator_cast", "struct", "template", "type", "typedef", "union", "using", "variable" };
static Code parse( int e, Str s ) {
	switch ( e ) {
	default: return parse_global_body( s ); case 1: return parse_class( s ); case 2: return parse_constructor( s ); case 3: return parse_define( s ); case 4: return parse_destructor( s ); case 5: return parse_enum( s ); case 6: return parse_export_body( s ); case 7: return parse_extern_link( s ); case 8: return parse_friend( s ); case 9: return parse_function( s );
	case 10: return parse_namespace( s ); case 11: return parse_operator( s ); case 12: return parse_operator_cast( s ); case 13: return parse_struct( s ); case 14: return parse_template( s ); case 15: return parse_type( s ); case 16: return parse_typedef( s ); case 17: return parse_union( s ); case 18: return parse_using( s ); case 19: return parse_variable( s );
	}
}
static const char* probe = "#pragma once\nstruct S : public B\n{\n\tint x = 1;\n\tvoid f( int a, char const* b = \"q\" );\n};\nenum class E : int\n{\n\tOne,\n\tTwo = 2\n};\ntemplate< typename T > T get( T v );\n";
static std::string probe_text() { CodeBody b = parse_global_body( gx::S( probe ) ); return gx::X( code_to_strbuilder( (Code)b ) ); }
static Context ctx; static std::string want;
static Macro mk( const char* n, MacroType t, MacroFlags f ) { return Macro{ cache_str( gx::S( n ) ), t, f }; }
static void fresh() {
	static bool live = false; if ( live ) gen::deinit( &ctx ); live = true;
	ctx = Context{}; ctx.InitSize_LexerTokens = 256; ctx.CodePool_NumBlocks = 256; ctx.SizePer_StringArena = 1 << 16; ctx.InitSize_Fallback_Allocator_Bucket_Size = 1 << 20; ctx.InitSize_BuilderBuffer = 4096;
	gen::init( &ctx );
	register_macro( mk( "STMT", MT_Statement, MF_Functional ) ); register_macro( mk( "EXPR", MT_Expression, MF_Allow_As_Attribute ) ); register_macro( mk( "TYPE", MT_Typename, MF_Null ) ); register_macro( mk( "FN_TYPE", MT_Typename, MF_Functional ) );
	register_macro( mk( "BODY", MT_Statement, MF_Functional | MF_Expects_Body | MF_Allow_As_Definition ) ); register_macro( mk( "FEXPR", MT_Expression, MF_Functional ) ); register_macro( mk( "ATTR", MT_Expression, MF_Allow_As_Attribute | MF_Allow_As_Identifier ) );
	want = probe_text();
}
// one call; the text handed over is a slice of a larger unterminated block
static void call( pbt::Gen& g, int e, const std::string& s ) {
	std::vector<char> b( s.begin(), s.end() ), keep = b;
	char* p = new char[ b.size() ? b.size() : 1 ]; memcpy( p, b.data(), b.size() ); struct D { char* p; ~D() { delete[] p; } } d{ p };
	long before = gx::failures;
	Code c = parse( e, Str{ p, (gen::ssize)b.size() } );
	bool reported = gx::failures != before;
	PBT_CHECK( memcmp( p, keep.data(), keep.size() ) == 0, "parse_%s wrote into its input", entries[ e ] );
	g.label( reported ? "failure reported" : ! code_is_valid( c ) ? "invalid, not reported" : "accepted" );
	if ( reported || ! code_is_valid( c ) ) return;      // a reported failure ends the process in the default configuration: what the call gave is of no use
	memset( p, 'Z', b.size() );                  // the code must not refer to the caller's text
	std::string t = gx::X( code_to_strbuilder( c ) );
	std::string t2 = gx::X( code_to_strbuilder( c ) ); PBT_CHECK( t == t2, "serializing twice differs" );
	Code dup = code_duplicate( c ); if ( c->Type == CT_Global_Body ) { std::string t3 = gx::X( code_to_strbuilder( dup ) ); PBT_CHECK( t == t3, "the duplicate serializes to\n%s\nnot\n%s", t3.c_str(), t.c_str() ); }
}
void case_( pbt::Gen& g )
{
	std::string how; std::string s = source( g, how ); int e = g.coin( 1, 2 ) ? 0 : (int)g.draw( sizeof entries / sizeof *entries );
	pbt::describe( g, fmt( "parse_%s of \"", entries[ e ] ) + show( s ) + "\"" ); g.label( how ); g.nontrivial = how != "plain" && s.size() > 4;
	fresh();
	call( g, e, s );
	if ( s.find( "define" ) != std::string::npos ) return;     // what is defined is a macro from then on, of whatever name
	std::string after = probe_text(); PBT_CHECK( after == want, "after the call a known source parses to\n%s\nnot\n%s", after.c_str(), want.c_str() );
}
int main( int argc, char** argv )
{
	pbt::Engine e; e.cfg.property = "C05";
	e.cfg.rule = "the source is mutated, truncated or random tokens, longer than 4 bytes. Distinct = distinct entry point and text.";
	e.suites.push_back( { "robust", case_, 120000, 2400000, 200, 10 } );
	return e.main( argc, argv );
}

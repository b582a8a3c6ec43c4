// C14 - token_fmt substitutes exactly its tokens; untyped code is its text.
#include "src_main.hpp"
typedef std::vector<std::pair<std::string, std::string>> Pairs;
// the reference: <name> of a given name becomes its value (the last one given), everything else is as it was
static std::string model( const std::string& f, const Pairs& p ) {
	std::string o; size_t i = 0;
	while ( i < f.size() ) {
		if ( f[ i ] == '<' ) { size_t e = f.find( '>', i + 1 ); if ( e != std::string::npos ) { const std::string* v = nullptr; for ( auto& x : p ) if ( x.first == f.substr( i + 1, e - i - 1 ) ) v = & x.second; if ( v ) { o += *v; i = e + 1; continue; } } }
		o += f[ i++ ];
	}
	return o;
}
static ssize va( char* b, usize n, s32 num, ... ) { va_list v; va_start( v, num ); ssize r = token_fmt_va( b, n, num, v ); va_end( v ); return r; }
enum Form { Impl, Va, Untyped, CodeFmt };
#define A( i ) p[ i ].first.c_str(), gx::S( p[ i ].second )
#define FORM( n, ... ) switch ( form ) { case Impl: return gx::X( token_fmt_impl( n + 1, ##__VA_ARGS__, f ) ); case CodeFmt: { Code c = untyped_str( token_fmt_impl( n + 1, ##__VA_ARGS__, f ) ); PBT_CHECK( c && c->Type == CT_Untyped, "code_fmt refused" ); return gx::X( c->Content ); } \
	case Untyped: { Code c = untyped_token_fmt( n + 1, f, ##__VA_ARGS__, f ); PBT_CHECK( c && c != Code_Invalid && c->Type == CT_Untyped, "untyped_token_fmt refused" ); PBT_CHECK( gx::X( code_to_strbuilder( c ) ) == gx::X( c->Content ), "the text of the code is another one" ); return gx::X( c->Content ); } \
	case Va: { std::vector<char> b( size + 1, 0x5a ); b.shrink_to_fit(); ssize r = va( b.data(), size, n + 1, ##__VA_ARGS__, f ); PBT_CHECK( r >= 0 && r <= (ssize)size, "%d characters in a buffer of %d", (int)r, (int)size ); PBT_CHECK( b[ size ] == 0x5a, "written past the buffer" ); return std::string( b.data(), (size_t)r ); } } break;
static std::string call( Form form, const Pairs& p, const char* f, size_t size ) {
	switch ( p.size() ) {
	case 0: FORM( 0 ) case 1: FORM( 1, A( 0 ) ) case 2: FORM( 2, A( 0 ), A( 1 ) ) case 3: FORM( 3, A( 0 ), A( 1 ), A( 2 ) ) case 4: FORM( 4, A( 0 ), A( 1 ), A( 2 ), A( 3 ) ) case 5: FORM( 5, A( 0 ), A( 1 ), A( 2 ), A( 3 ), A( 4 ) ) case 6: FORM( 6, A( 0 ), A( 1 ), A( 2 ), A( 3 ), A( 4 ), A( 5 ) )
	case 12: FORM( 12, A( 0 ), A( 1 ), A( 2 ), A( 3 ), A( 4 ), A( 5 ), A( 6 ), A( 7 ), A( 8 ), A( 9 ), A( 10 ), A( 11 ) )
	}
	abort();
}
static void one( pbt::Gen& g, const std::string& f, const Pairs& p, const std::string& want ) {
	Form form = (Form)g.draw( 4 ); size_t size = g.coin( 1, 3 ) ? g.draw( want.size() + 3 ) : want.size() + g.draw( 40 ); if ( form != Va ) size = GEN_PRINTF_MAXLEN; if ( want.empty() && form > Va ) form = Impl; g.label( form == Impl ? "token_fmt" : form == Va ? "token_fmt_va" : form == Untyped ? "untyped_token_fmt" : "code_fmt" );
	std::string have = call( form, p, f.c_str(), size ), w = want.substr( 0, size );
	PBT_CHECK( have == w, "form %d, a buffer of %d: '%s' instead of '%s'", (int)form, (int)size, pbt::show( have ).c_str(), pbt::show( w ).c_str() );
}
static Pairs pairs( pbt::Gen& g ) {
	Pairs p; int n = g.coin( 1, 10 ) ? 12 : (int)g.draw( 7 ); while ( n-- ) { std::string k = g.coin( 1, 12 ) ? "" : g.coin( 1, 3 ) ? g.str( "ab c:,*(", 1, 6 ) : g.pick( { "a", "b", "ab", "type", "Type", "name", "a b", "TypeName", "x_1", "plumless", "buckeroo", "codding", "gnu" } ); p.push_back( { k, g.coin( 1, 8 ) ? "" : g.coin( 1, 3 ) ? "<" + std::string( g.pick( { "a", "type", "name" } ) ) + ">" : g.str( "xyz <>\n%\"", 1, g.coin( 1, 20 ) ? 300 : 10 ) } ); }
	return p;
}
static std::string show( const Pairs& p, const std::string& f ) { std::string o = "'" + pbt::show( f ) + "'"; for ( auto& x : p ) o += "\n <" + pbt::show( x.first ) + "> = '" + pbt::show( x.second ) + "'"; return o; }
static void templates( pbt::Gen& g ) {
	fresh(); std::string all; int n = 1 + (int)g.draw( 4 );
	while ( n-- ) {    // tokens of one call mean nothing to the next
		Pairs p = pairs( g ); std::string f; int k = (int)g.draw( 12 ); bool any = false;
		while ( k-- ) switch ( g.weighted( { 5, 3, 2, 2 } ) ) { case 0: if ( p.size() ) { f += "<" + p[ g.draw( p.size() ) ].first + ">"; any = true; break; } /* fall through */ case 1: f += g.str( "int x;\n\t(){}", 1, 8 ); break; case 2: f += g.pick( { "<", ">", "<<", ">>", "<>", "< a >", "<a", "a>", "<unknown>", "->", "%s", "<b>" } ); break; case 3: f += "<" + std::string( g.pick( { "a", "b", "ab", "type", "Type", "name", "a b", "TypeName", "x_1", "plumless", "buckeroo", "codding", "gnu" } ) ) + ">"; break; }
		if ( g.coin( 1, 40 ) ) { f += std::string( 40000, 'x' ); for ( auto& x : p ) if ( g.coin( 1, 3 ) ) x.second = std::string( 30000, 'y' ); }
		all += show( p, f.size() > 300 ? f.substr( 0, 300 ) + "..." : f ) + "\n"; pbt::describe( g, all ); if ( any && f.size() > 6 ) g.nontrivial = true;
		one( g, f, p, model( f, p ) );
	}
}
// parts of a generated declaration become tokens: substituting gives the source again, and code parsed from it what the source declares
static void source( pbt::Gen& g ) {
	fresh(); SG sg( g ); sg.same_spelling = true; D d = sg.file( 2 ); std::string text = src::canonical( d.s ), f; Pairs p; size_t i = 0;
	for ( auto& t : d.s ) { size_t at = text.find( t.t, i ); if ( at == std::string::npos ) throw pbt::Discard(); f += text.substr( i, at - i ); i = at + t.t.size();
		size_t have = p.size(); for ( size_t k = 0; k < p.size(); ++k ) if ( p[ k ].second == t.t ) have = k;
		if ( t.t.size() && p.size() < 6 && g.coin( 1, 6 ) && have == p.size() ) p.push_back( { std::string( 1, (char)( 'A' + p.size() ) ) + "_tok", t.t } );
		if ( have < p.size() ) f += "<" + p[ have ].first + ">"; else f += t.t; }
	f += text.substr( i ); pbt::describe( g, show( p, f ) ); g.nontrivial = p.size() > 1; PBT_CHECK( model( f, p ) == text, "the reference is wrong" );
	one( g, f, p, text ); Pairs q = p; Str out; std::string s = call( Impl, q, f.c_str(), 0 ); if ( s.size() < 60000 ) { Code c = parse( s ); std::string have = src::walk( c ); PBT_CHECK( have == d.f, "parsed from the template the AST holds other facts\n%s", diff( have, d.f ).c_str() ); }
}
static void untyped( pbt::Gen& g ) {
	fresh(); std::string s = g.coin( 1, 30 ) ? std::string( GEN_PRINTF_MAXLEN - 2 + g.draw( 4 ), 'q' ) : g.str( "int x;{}()\"%\\\n\t<>", 1, 60 ); pbt::describe( g, pbt::show( s, 200 ) ); g.nontrivial = s.size() > 4; Code c;
	switch ( g.draw( 5 ) ) {
	case 0: c = untyped_str( gx::S( s ) ); break;
	case 1: c = untyped_fmt( "%s", s.c_str() ); break;
	case 2: c = untyped_fmt( "%S", gx::S( s ) ); break;
	case 3: { int v = (int)g.draw( 100000 ); c = untyped_fmt( "a %d %s;%u", v, s.c_str(), (u32)v ); s = pbt::fmt( "a %d %s;%u", v, s.c_str(), v ); break; }
	case 4: c = def_execution( gx::S( s ) ); break;
	}
	if ( s.size() > GEN_PRINTF_MAXLEN - 1 && c->Type == CT_Untyped && gx::X( c->Content ).size() < s.size() ) s = s.substr( 0, GEN_PRINTF_MAXLEN - 1 );   // formatting is bounded
	PBT_CHECK( c && ( c->Type == CT_Untyped || c->Type == CT_Execution ), "refused" ); PBT_CHECK( gx::X( c->Content ) == s, "it holds '%s' instead of '%s'", pbt::show( gx::X( c->Content ), 300 ).c_str(), pbt::show( s, 300 ).c_str() ); PBT_CHECK( text_of( c ) == s, "it prints '%s' instead of '%s'", pbt::show( text_of( c ), 300 ).c_str(), pbt::show( s, 300 ).c_str() );
	// within a body the text stays in one piece and in order
	Code a = untyped_str( txt( "before();" ) ), b = untyped_str( txt( "after();" ) ); if ( s.size() > 2000 ) return; std::string body = gx::X( code_to_strbuilder( c->Type == CT_Execution || g.coin() ? (Code)def_function_body( 3, a, c, b ) : (Code)def_global_body( 3, a, c, b ) ) ); size_t x = body.find( "before();" ), y = body.find( s, x == std::string::npos ? 0 : x + 9 ), z = body.find( "after();", y == std::string::npos ? 0 : y + s.size() ); PBT_CHECK( x != std::string::npos && y != std::string::npos && z != std::string::npos && src::join( src::lex( body.substr( 0, x ) + body.substr( z + 8 ) ) ).empty(), "the body prints '%s'", pbt::show( body, 500 ).c_str() );
}
int main( int argc, char** argv ) {
	return run_main( argc, argv, "C14", "a template of more than 6 characters that uses a token; at least two tokens; text of more than 4 characters", { { "templates", templates, 25000, 400000, 200, 10 }, { "source", source, 12000, 150000, 200, 10 }, { "untyped", untyped, 12000, 150000, 200, 10 } } );
}

// C02 - what the library serialized parses again, to the same text (but for empty lines) and the same AST.
#include "src_main.hpp"
static std::string lines( const std::string& s ) { std::string o; for ( char c : s ) if ( c != '\n' || ( o.size() && o.back() != '\n' ) ) o += c; return o; }   // without the empty lines
static void stable( pbt::Gen& g, int max ) {
	SG sg( g ); sg.same_spelling = true; D d = sg.file( max ); std::string text = src::render( &g, d.s, Style{ (int)g.draw( 3 ) } );
	pbt::describe( g, text ); g.nontrivial = d.s.size() > 12; labels( g, d );
	fresh(); Code a = parse( text ); std::string t1 = text_of( a ), f1 = src::walk( a );
	PBT_CHECK( text_of( a ) == t1, "serializing twice gives two texts" );
	Code b = parse( t1, "its own output is " ); std::string t2 = text_of( b ), f2 = src::walk( b );
	PBT_CHECK( f1 == f2, "the AST of the output differs\n%s\noutput:\n%s", diff( f2, f1 ).c_str(), t1.c_str() );
	PBT_CHECK( lines( t1 ) == lines( t2 ), "the output of the output differs\n%s\nfirst:\n%s\nsecond:\n%s", diff( lines( t2 ), lines( t1 ) ).c_str(), t1.c_str(), t2.c_str() );
}
int main( int argc, char** argv ) {
	return run_main( argc, argv, "C02", "the source has more than 12 tokens", {
		{ "decl", []( pbt::Gen& g ) { stable( g, 1 ); }, 25000, 400000, 200, 10 },
		{ "file", []( pbt::Gen& g ) { stable( g, 8 ); }, 12000, 200000, 100, 15 } } );
}

// C20 - white space between tokens carries no meaning.
#include "src_main.hpp"
static void space( pbt::Gen& g, int max ) {
	SG sg( g ); sg.same_spelling = true; D d = sg.file( max ); std::string text = src::render( &g, d.s, Style{ 1 + (int)g.draw( 2 ) } );
	pbt::describe( g, text ); g.nontrivial = d.s.size() > 12; labels( g, d );
	fresh(); Code a = parse( text ); same_tokens( text_of( a ), d ); std::string have = src::walk( a );
	PBT_CHECK( have == d.f, "the AST holds other facts\n%s", diff( have, d.f ).c_str() );
}
int main( int argc, char** argv ) {
	return run_main( argc, argv, "C20", "the source has more than 12 tokens", {
		{ "decl", []( pbt::Gen& g ) { space( g, 1 ); }, 30000, 500000, 200, 10 },
		{ "file", []( pbt::Gen& g ) { space( g, 8 ); }, 15000, 250000, 100, 15 } } );
}

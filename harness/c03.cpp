// C03 - the AST of a parsed declaration holds what the source says.
#include "src_main.hpp"
static void facts( pbt::Gen& g, int max ) {
	SG sg( g ); D d = sg.file( max ); std::string text = src::canonical( d.s );
	pbt::describe( g, text ); g.nontrivial = d.s.size() > 12; labels( g, d );
	fresh(); std::string have = src::walk( parse( text ) );
	PBT_CHECK( have == d.f, "the AST holds other facts\n%s", diff( have, d.f ).c_str() );
}
int main( int argc, char** argv ) {
	return run_main( argc, argv, "C03", "the source has more than 12 tokens", {
		{ "decl", []( pbt::Gen& g ) { facts( g, 1 ); }, 30000, 500000, 200, 10 },
		{ "file", []( pbt::Gen& g ) { facts( g, 8 ); }, 15000, 250000, 100, 15 } } );
}

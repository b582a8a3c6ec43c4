// C01 - parsing and serializing a supported declaration keeps every token.
#include "src_main.hpp"
static void tokens( pbt::Gen& g, int max ) {
	SG sg( g ); D d = sg.file( max ); std::string text = src::canonical( d.s );
	pbt::describe( g, text ); g.nontrivial = d.s.size() > 12; labels( g, d );
	fresh(); same_tokens( text_of( parse( text ) ), d );
}
int main( int argc, char** argv ) {
	return run_main( argc, argv, "C01", "the source has more than 12 tokens", {
		{ "decl", []( pbt::Gen& g ) { tokens( g, 1 ); }, 30000, 500000, 200, 10 },
		{ "file", []( pbt::Gen& g ) { tokens( g, 8 ); }, 15000, 250000, 100, 15 } } );
}

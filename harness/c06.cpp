// C06 - code assembled with the upfront constructors from the parts of parsed code is that code.
#include "src_main.hpp"
#include "rebuild.hpp"
static void assemble( pbt::Gen& g, int max ) {
	SG sg( g ); D d = sg.file( max ); std::string text = src::canonical( d.s );
	pbt::describe( g, text ); labels( g, d );
	fresh(); Code a = parse( text ); long before = gx::failures;
	Rebuild r{ g }; Code b = r.code( a );
	PBT_CHECK( b && b != Code_Invalid && gx::failures == before, "the constructors refused (%s) the parts of:\n%s", r.last.c_str(), text.c_str() );
	g.nontrivial = r.made > 4;
	for ( auto& k : r.kinds ) g.label( k.c_str() );
	std::string out = text_of( b ), want = text_of( a );
	{ src::Toks have = src::lex( out ), w = src::lex( want ); std::string h = src::join( have ), ww = src::join( w ); PBT_CHECK( h == ww, "assembled code serializes otherwise\n%s\noutput:\n%s", diff( h, ww ).c_str(), out.c_str() ); }
	std::string have = src::walk( b ), facts = src::walk( a );
	PBT_CHECK( have == facts, "the assembled AST holds other facts\n%s", diff( have, facts ).c_str() );
}
int main( int argc, char** argv ) {
	return run_main( argc, argv, "C06", "more than four nodes were made with upfront constructors", {
		{ "decl", []( pbt::Gen& g ) { assemble( g, 1 ); }, 25000, 400000, 200, 10 },
		{ "file", []( pbt::Gen& g ) { assemble( g, 8 ); }, 12000, 200000, 100, 15 } }, {}, {
		{ "class-subscript", "def_class_body and def_struct_body refuse the member operators [] () , ->* new and delete", [] {
			fresh(); Opts_def_operator o = {}; o.params = def_param( t_int, txt( "i" ) ); o.ret_type = t_int; CodeOperator op = def_operator( Op_Subscript, Str{ nullptr, 0 }, o );
			PBT_CHECK( op && (Code)op != Code_Invalid, "no operator" ); CodeBody b = def_class_body( 1, op ); PBT_CHECK( b && (Code)b != Code_Invalid, "def_class_body refused operator[]" ); } } } );
}

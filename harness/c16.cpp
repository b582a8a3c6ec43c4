// C16 - macros registered with the library are read as what they were registered for, and nothing else is.
#include "mac.hpp"
static void reg( pbt::Gen& g, const std::vector<SG::Mac>& t ) {
	if ( g.coin( 1, 4 ) ) for ( auto m : t ) if ( g.coin( 1, 3 ) ) { m.fn = ! m.fn; m.kind = m.kind == 's' ? 'e' : 's'; register_macro( to_macro( m ) ); }   // registered again below: the last one stands
	size_t i = 0;
	while ( i < t.size() ) switch ( g.draw( 4 ) ) {
	case 0: { std::vector<Macro> a; size_t n = 1 + g.draw( t.size() - i ); std::vector<std::string> keep; for ( size_t k = 0; k < n; ++k ) a.push_back( to_macro( t[ i + k ] ) ); register_macros_arr( (s32)n, a.data() ); i += n; break; }
	case 1: if ( i + 2 < t.size() ) { register_macros( 3, to_macro( t[ i ] ), to_macro( t[ i + 1 ] ), to_macro( t[ i + 2 ] ) ); i += 3; break; }
	case 2: if ( ! t[ i ].fn || g.coin() ) { static std::string n; n = t[ i ].n; Macro m = to_macro( t[ i ] ); m.Name = gx::S( n ); register_macro( m ); n.assign( n.size(), '?' ); ++i; break; }   // the name needn't outlive the call
	default: register_macro( to_macro( t[ i ] ) ); ++i;
	}
	for ( auto& m : t ) { Macro* f = lookup_macro( gx::S( m.n ) ); Macro w = to_macro( m ); PBT_CHECK( f && gx::X( f->Name ) == m.n && f->Type == w.Type && f->Flags == w.Flags, "the macro %s isn't found as registered", m.n.c_str() ); PBT_CHECK( ! lookup_macro( gx::S( m.n + "x" ) ), "%sx is not registered", m.n.c_str() ); }
}
static void uses( pbt::Gen& g, int max ) {
	SG sg( g ); sg.macs = table( g ); sg.same_spelling = true; D d = sg.file( max ); sg.glue( d.s );
	std::string text = src::render( &g, d.s, Style{ (int)g.draw( 3 ) } );
	pbt::describe( g, show( sg.macs ) + text ); g.nontrivial = sg.uses + sg.plain > 0; labels( g, d ); if ( sg.plain ) g.label( "as identifier" ); if ( sg.uses ) g.label( "used" );
	if ( d.f.find( "raw[" ) != std::string::npos ) g.label( "statement" ); if ( d.f.find( '!' ) != std::string::npos ) g.label( "param/suffix" );
	fresh(); reg( g, sg.macs );
	Code a = parse( text ); std::string t1 = text_of( a ), f1 = src::walk( a );
	PBT_CHECK( f1 == d.f, "the AST isn't what the source says\n%s\nsource:\n%s", diff( f1, d.f ).c_str(), text.c_str() );
	same_tokens( t1, d );
	Code b = parse( t1, "its own output is " ); std::string f2 = src::walk( b );
	PBT_CHECK( f1 == f2, "the AST of the output differs\n%s\noutput:\n%s", diff( f2, f1 ).c_str(), t1.c_str() );
}
int main( int argc, char** argv ) {
	return run_main( argc, argv, "C16", "the source uses the name of at least one registered macro", {
		{ "decl", []( pbt::Gen& g ) { uses( g, 1 ); }, 25000, 400000, 200, 10 },
		{ "file", []( pbt::Gen& g ) { uses( g, 6 ); }, 12000, 200000, 100, 15 } } );
}

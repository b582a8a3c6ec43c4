// C04 - the entry for one kind of declaration parses it to what it is within a translation unit.
#include "mac.hpp"
static D exported( SG& s ) { D d; d.t( "export {" ); std::string f; int n = (int)s.g.draw( 4 ); while ( n-- ) { D x = s.decl( 0 ); d.cat( x ); f += x.f + " "; } d.t( "}" ); d.f = "export[{" + f + "}]"; return d; }
struct Entry { const char* name; D (*make)( SG& ); Code (*parse)( Str ); };
static const Entry entries[] = {
	{ "class", []( SG& s ) { return s.cls_( "class", 2 ); }, []( Str t ) { return (Code)parse_class( t ); } },
	{ "struct", []( SG& s ) { return s.cls_( "struct", 2 ); }, []( Str t ) { return (Code)parse_struct( t ); } },
	{ "union", []( SG& s ) { return s.union_( 1 ); }, []( Str t ) { return (Code)parse_union( t ); } },
	{ "enum", []( SG& s ) { return s.enum_(); }, []( Str t ) { return (Code)parse_enum( t ); } },
	{ "typedef", []( SG& s ) { return s.typedef_(); }, []( Str t ) { return (Code)parse_typedef( t ); } },
	{ "using", []( SG& s ) { return s.using_( true ); }, []( Str t ) { return (Code)parse_using( t ); } },
	{ "variable", []( SG& s ) { return s.var( false ); }, []( Str t ) { return (Code)parse_variable( t ); } },
	{ "function", []( SG& s ) { return s.fn( false ); }, []( Str t ) { return (Code)parse_function( t ); } },
	{ "operator", []( SG& s ) { return s.op( false ); }, []( Str t ) { return (Code)parse_operator( t ); } },
	{ "namespace", []( SG& s ) { return s.ns_( 2 ); }, []( Str t ) { return (Code)parse_namespace( t ); } },
	{ "extern", []( SG& s ) { return s.extern_(); }, []( Str t ) { return (Code)parse_extern_link( t ); } },
	{ "template", []( SG& s ) { return s.tmpl( false ); }, []( Str t ) { return (Code)parse_template( t ); } },
	{ "friend", []( SG& s ) { return s.friend_(); }, []( Str t ) { return (Code)parse_friend( t ); } },
	{ "constructor", []( SG& s ) { return s.g.coin() ? s.ctor( "Klass", true ) : s.ctor( s.uniq(), false ); }, []( Str t ) { return (Code)parse_constructor( t ); } },
	{ "destructor", []( SG& s ) { return s.dtor( "Klass", true ); }, []( Str t ) { return (Code)parse_destructor( t ); } },
	{ "opcast", []( SG& s ) { return s.opcast( s.g.coin() ); }, []( Str t ) { return (Code)parse_operator_cast( t ); } },
	{ "define", []( SG& s ) { return s.pp( 5 ); }, []( Str t ) { return (Code)parse_define( t ); } },
	{ "export", []( SG& s ) { return exported( s ); }, []( Str t ) { return (Code)parse_export_body( t ); } },
	{ "type", []( SG& s ) { auto t = s.type( true ); D d; d.cat( t.d ); d.f = "type " + t.f; return d; }, []( Str t ) { return (Code)parse_type( t ); } },
};
static const int N = sizeof entries / sizeof *entries;
struct Item { const Entry* e; D d; std::string text; Code c; bool member() const { return d.f.compare( 0, 4, "dtor" ) == 0 || ( d.f.compare( 0, 4, "ctor" ) == 0 && src::join( d.s ).find( "Klass" ) != std::string::npos ); } };   // destructors and constructors are named by their class
static void facts( const Item& i, Code in_class = Code{} ) {
	std::string have = src::walk( i.c ), want = i.d.f;
	PBT_CHECK( have == want, "parse_%s: the AST holds other facts\n%s\nof\n%s", i.e->name, diff( have, want ).c_str(), i.text.c_str() ); if ( ! i.member() || in_class ) { if ( in_class ) { PBT_CHECK( in_class->Type == CT_Class, "def_class refused what parse_%s made of\n%s", i.e->name, i.text.c_str() ); D d; d.t( "class Klass {" ); d.cat( i.d ); d.t( "} ;" ); same_tokens( text_of( in_class ), d ); } else same_tokens( text_of( i.c ), i.d ); }
}
static void single( pbt::Gen& g ) {
	fresh(); SG sg( g ); sg.same_spelling = true; sg.mid_attrs = false; with_macros( sg, 3 ); reg_all( sg, sg.macs.size() ); std::vector<Item> v; int n = 1 + (int)g.draw( 5 ); std::string all = sg.macs.empty() ? "" : show( sg.macs );
	while ( n-- ) {
		Item i; i.e = & entries[ g.draw( N ) ]; i.d = i.e->make( sg ); sg.glue( i.d.s ); i.text = src::render( & g, i.d.s, Style{ (int)g.draw( 3 ) } ); if ( g.coin( 1, 3 ) ) i.text = g.pick( { "\n", "\r\n", "  ", "\t", "\n\n\t" } ) + i.text; if ( g.coin( 1, 3 ) ) i.text += g.pick( { "\n", "\n\n", " ", "\t\n" } );
		all += std::string( "--- " ) + i.e->name + "\n" + i.text + "\n"; pbt::describe( g, all ); g.label( i.e->name ); if ( i.d.s.size() > 8 ) g.nontrivial = true;
		long before = gx::failures; i.c = i.e->parse( gx::S( i.text ) ); PBT_CHECK( i.c && i.c != Code_Invalid, "parse_%s rejected\n%s", i.e->name, i.text.c_str() ); PBT_CHECK( gx::failures == before, "parse_%s reported a failure for\n%s", i.e->name, i.text.c_str() );
		facts( i ); v.push_back( i );
	}
	for ( auto& i : v ) { facts( i ); if ( i.member() ) facts( i, (Code)def_class( txt( "Klass" ), { .body = def_class_body( 1, i.c ) } ) ); }      // later parses leave earlier results alone
}
// an entry refuses the declarations of the other kinds: those the keyword of which it does not take
static void other( pbt::Gen& g ) {
	static const std::vector<int> keyed = { 0, 1, 2, 3, 4, 5, 9, 10, 11, 12, 16, 17 }; fresh(); SG sg( g ); sg.same_spelling = true; const Entry& e = entries[ g.pick( keyed ) ]; const Entry* o = & e; while ( o == & e ) o = & entries[ g.draw( N ) ];
	D d = o->make( sg ); std::string text = src::render( & g, d.s, Style{ (int)g.draw( 3 ) } ); pbt::describe( g, std::string( "parse_" ) + e.name + " of\n" + text ); g.nontrivial = d.s.size() > 5; g.label( e.name );
	long before = gx::failures; Code c = e.parse( gx::S( text ) ); PBT_CHECK( gx::failures > before, "parse_%s took the %s without a word\n%s", e.name, o->name, text.c_str() );
	D k = e.make( sg ); text = src::canonical( k.s ); before = gx::failures; c = e.parse( gx::S( text ) ); PBT_CHECK( c && c != Code_Invalid && gx::failures == before, "after a refused declaration parse_%s rejects\n%s", e.name, text.c_str() ); facts( Item{ & e, k, text, c } );
}
int main( int argc, char** argv ) {
	return run_main( argc, argv, "C04", "a declaration of more than 8 tokens", { { "single", single, 25000, 400000, 200, 10 }, { "other", other, 15000, 200000, 200, 10 } } );
}

// String interning and the macro table against std::map, over histories that include crc collisions, strings
// longer than the cache limit and arenas that fill up.
#include "gencpp.hpp"
using namespace gen;
using pbt::fmt; using pbt::show;

static std::string dump( const std::vector<std::string>& log ) { std::string o; for ( auto& l : log ) o += l + "\n"; return o; }
// bytes that make `prefix + bytes` have the wanted crc32
static u32 tab[ 256 ]; static u32 rev[ 256 ];
static void mk_tab() { for ( u32 i = 0; i < 256; ++i ) { u32 c = i; for ( int k = 0; k < 8; ++k ) c = c & 1 ? ( c >> 1 ) ^ 0xEDB88320u : c >> 1; tab[ i ] = c; } for ( u32 i = 0; i < 256; ++i ) rev[ tab[ i ] >> 24 ] = i; }
static u32 crc( const std::string& s ) { u32 c = ~0u; for ( unsigned char x : s ) c = ( c >> 8 ) ^ tab[ ( c ^ x ) & 0xff ]; return ~c; }
static std::string forge( const std::string& prefix, u32 want ) {
	u32 target = ~want; u32 idx[ 4 ]; u32 t = target; for ( int i = 3; i >= 0; --i ) { idx[ i ] = rev[ t >> 24 ]; t = ( t ^ tab[ idx[ i ] ] ) << 8; }
	u32 c = ~0u; for ( unsigned char x : prefix ) c = ( c >> 8 ) ^ tab[ ( c ^ x ) & 0xff ];
	std::string o = prefix; for ( int i = 0; i < 4; ++i ) { unsigned char b = (unsigned char)( ( c ^ idx[ i ] ) & 0xff ); o += (char)b; c = ( c >> 8 ) ^ tab[ idx[ i ] ]; }
	return o;
}
static std::string name_of( pbt::Gen& g, int max ) { return g.str( "abcdexyz_019", 1, max ); }

struct Exact { char* p; size_t n; Exact( const std::string& s ) : p( new char[ s.size() ? s.size() : 1 ] ), n( s.size() ) { memcpy( p, s.data(), n ); } ~Exact() { memset( p, '#', n ); delete[] p; } Str str() { return Str{ p, (ssize)n }; } };

void cache_case( pbt::Gen& g )
{
	Context ctx = {}; ctx.CodePool_NumBlocks = 64; ctx.InitSize_Fallback_Allocator_Bucket_Size = 1 << 20; ctx.InitSize_LexerTokens = 64; ctx.InitSize_BuilderBuffer = 4096;
	u32 arena = (u32)g.pick( std::vector<int>{ 64, 200, 1000, 5000, 100000 } ); ctx.SizePer_StringArena = arena; ctx.InitSize_StringArenasArray = (u32)g.range( 1, 4 );
	u32 limit = (u32)g.pick( std::vector<int>{ 30, 200, 5000, 1 << 19 } ); ctx.Max_StrCacheLength = limit;
	init( & ctx );
	std::vector<std::string> log{ fmt( "arenas of %u bytes, cache limit %u", arena, limit ) }; std::map<std::string,const char*> m; std::map<const char*,std::string> owner; std::vector<std::string> order; std::vector<std::pair<std::string,const char*>> uncached;
	bool collided = false, again = false, longer = false; std::set<u32> crcs;
	int steps = g.many( 1, 10 + g.size * 2, [&]( int ) {
		std::string s;
		switch ( g.weighted( { 6, 3, 5, 3, 2 } ) ) {
		case 0: s = name_of( g, 12 ); break;
		case 1: s = g.str( "ab\n \t{}", 0, 4 ); break;
		case 2: if ( order.size() ) s = order[ g.draw( order.size() ) ]; break;
		case 3: if ( order.size() ) s = forge( name_of( g, 10 ), crc( order[ g.draw( order.size() ) ] ) ); break;
		case 4: { int n = (int)g.range( 1, g.coin( 1, 5 ) ? 6000 : 300 ); std::string w = name_of( g, 8 ); while ( (int)s.size() < n ) s += w; s.resize( n ); } break;
		}
		log.push_back( "cache " + show( s, 60 ) + fmt( " (%zu bytes, crc %08x)", s.size(), crc( s ) ) ); pbt::describe( g, dump( log ) );
		StrCached r; { Exact e( s ); r = cache_str( e.str() ); }
		PBT_CHECK( r.Len == (ssize)s.size() && memcmp( r.Ptr, s.data(), s.size() ) == 0, "cache_str returned '%s'", show( gx::X( r ), 200 ).c_str() );
		PBT_CHECK( r.Ptr[ r.Len ] == 0, "cached string is not terminated" );
		PBT_CHECK( strbuilder_length( StrBuilder{ (char*)r.Ptr } ) == r.Len, "cached string has no valid header" );
		if ( s.size() > limit ) { longer = true; uncached.push_back( { s, r.Ptr } ); PBT_CHECK( ! owner.count( r.Ptr ), "a string beyond the limit shares storage" ); owner[ r.Ptr ] = s; }
		else if ( m.count( s ) ) { again = true; PBT_CHECK( m[ s ] == r.Ptr, "the same string was interned twice" ); }
		else { PBT_CHECK( ! owner.count( r.Ptr ), "different strings share one interned pointer: '%s' and '%s'", show( owner[ r.Ptr ], 100 ).c_str(), show( s, 100 ).c_str() ); owner[ r.Ptr ] = s; m[ s ] = r.Ptr; order.push_back( s ); if ( ! crcs.insert( crc( s ) ).second ) collided = true; }
		for ( auto& kv : m ) PBT_CHECK( memcmp( kv.second, kv.first.c_str(), kv.first.size() + 1 ) == 0, "interned string '%s' changed to '%s'", show( kv.first, 100 ).c_str(), show( std::string( kv.second, kv.first.size() ), 100 ).c_str() );
		for ( auto& kv : uncached ) PBT_CHECK( memcmp( kv.second, kv.first.c_str(), kv.first.size() + 1 ) == 0, "long string changed" );
	}, 20 );
	for ( auto& s : order ) { Exact e( s ); PBT_CHECK( cache_str( e.str() ).Ptr == m[ s ], "interned string '%s' moved", show( s, 100 ).c_str() ); }
	// names given to ASTs are interned too: equal names share the pointer
	{ std::string n = name_of( g, 6 ); log.push_back( "def_type/def_define/def_namespace " + n ); pbt::describe( g, dump( log ) ); Exact e( n ); if ( n.size() <= limit ) { CodeTypename a = def_type( e.str() ); CodeTypename b = def_type( gx::S( n ) ); PBT_CHECK( a->Name.Ptr == b->Name.Ptr && cache_str( e.str() ).Ptr == a->Name.Ptr, "equal names of two ASTs are not the same interned string" ); } }
	gen::deinit( & ctx );
	pbt::describe( g, dump( log ) ); g.nontrivial = steps > 4 && ( collided || again ); if ( collided ) g.label( "crc collision" ); if ( longer ) g.label( "beyond the cache limit" ); if ( again ) g.label( "interned again" );
}

void macro_case( pbt::Gen& g )
{
	Context ctx = {}; ctx.CodePool_NumBlocks = 64; ctx.InitSize_Fallback_Allocator_Bucket_Size = 1 << 20; ctx.InitSize_LexerTokens = 64; ctx.InitSize_BuilderBuffer = 4096; init( & ctx );
	std::vector<std::string> log; struct M { int type, flags; }; std::map<std::string,M> m; std::vector<std::string> order; m[ "enum_underlying" ] = M{ MT_Expression, MF_Functional }; bool collided = false, over = false; std::set<u32> crcs; std::vector<std::string> keep; keep.reserve( 4000 );
	auto fresh = [&]() -> std::string { switch ( g.weighted( { 6, 3, 2 } ) ) { case 1: if ( order.size() ) return order[ g.draw( order.size() ) ]; case 2: if ( order.size() ) return forge( name_of( g, 10 ), crc( order[ g.draw( order.size() ) ] ) ); default: return name_of( g, 8 ); } };
	auto mk = [&]( const std::string& n ) { Macro x = {}; keep.push_back( n ); x.Name = gx::S( keep.back() ); x.Type = (MacroType)g.draw( 10 ); x.Flags = (MacroFlags)g.draw( 8 ); return x; };
	auto model = [&]( const Macro& x ) { std::string n = gx::X( x.Name ); if ( m.count( n ) ) over = true; else { order.push_back( n ); if ( ! crcs.insert( crc( n ) ).second ) collided = true; } m[ n ] = M{ x.Type, x.Flags }; };
	int steps = g.many( 1, 8 + g.size, [&]( int ) {
		switch ( g.draw( 3 ) ) {
		case 0: { std::string n = fresh(); Macro x = mk( n ); log.push_back( "register " + show( n ) + fmt( " type %d flags %d", x.Type, x.Flags ) ); register_macro( x ); model( x ); } break;
		case 1: { Macro a = mk( fresh() ), b = mk( fresh() ), c = mk( fresh() ); log.push_back( "register_macros " + show( gx::X( a.Name ) ) + ", " + show( gx::X( b.Name ) ) + ", " + show( gx::X( c.Name ) ) ); register_macros( 3, a, b, c ); model( a ); model( b ); model( c ); } break;
		case 2: { std::vector<Macro> v; int n = (int)g.range( 1, 5 ); std::string l = "register_macros_arr"; for ( int i = 0; i < n; ++i ) { v.push_back( mk( fresh() ) ); l += " " + show( gx::X( v.back().Name ) ); } log.push_back( l ); register_macros_arr( n, v.data() ); for ( auto& x : v ) model( x ); } break;
		}
		pbt::describe( g, dump( log ) );
		for ( auto& kv : m ) { Exact e( kv.first ); Macro* x = lookup_macro( e.str() ); PBT_CHECK( x, "macro '%s' is not found", show( kv.first ).c_str() ); PBT_CHECK( gx::X( x->Name ) == kv.first && x->Type == kv.second.type && x->Flags == kv.second.flags, "lookup of '%s' gives '%s' type %d flags %d", show( kv.first ).c_str(), show( gx::X( x->Name ) ).c_str(), x->Type, x->Flags ); }
		for ( int i = 0; i < 3; ++i ) { std::string n = i == 0 && order.size() ? forge( name_of( g, 5 ), crc( order[ g.draw( order.size() ) ] ) ) : name_of( g, 8 ); if ( ! m.count( n ) ) { Exact e( n ); PBT_CHECK( lookup_macro( e.str() ) == nullptr, "macro '%s' was never registered", show( n ).c_str() ); } }
	}, 10 );
	gen::deinit( & ctx );
	pbt::describe( g, dump( log ) ); g.nontrivial = steps > 3 && ( collided || over ); if ( collided ) g.label( "crc collision" ); if ( over ) g.label( "registered again" );
}

int main( int argc, char** argv )
{
	mk_tab();
	pbt::Engine e; e.cfg.property = "C09";
	e.cfg.rule = "cache: more than 4 strings interned with a repeat or a crc collision; macro: more than 3 registrations with a repeat or a crc collision. Distinct = distinct history.";
	e.suites.push_back( { "cache", cache_case, 30000, 300000 } );
	e.suites.push_back( { "macro", macro_case, 20000, 200000 } );
	return e.main( argc, argv );
}

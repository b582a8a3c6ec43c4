// StrBuilder / Str / c_str helpers against std::string, over generated operation histories.
#include "gencpp.hpp"
using namespace gen;
using pbt::fmt; using pbt::show;

static std::string dump( const std::vector<std::string>& log ) { std::string o; for ( auto& l : log ) o += l + "\n"; return o; }
static const char* ALPHA = "ab \t\nAB01_{}\"\\/*\r\v\fxyzabab";
static std::string text( pbt::Gen& g, int max ) {
	switch ( g.weighted( { 6, 2, 1, 1 } ) ) {
	case 0: return g.str( ALPHA, 0, max );
	case 1: return g.str( "ab", 0, max );
	case 2: { std::string s = g.str( ALPHA, 0, max ); int n = (int)g.range( 1, 40 ); std::string o; for ( int i = 0; i < n; ++i ) o += s; return o; }
	default: { std::string o; int n = (int)g.range( 0, max ); while ( n-- ) o += (char)g.range( 1, 255 ); return o; }
	}
}
// text that may hold NULs, for what takes a length
static std::string bytes( pbt::Gen& g, int max, bool nul ) { std::string s = text( g, max ); if ( nul ) for ( auto& c : s ) if ( g.coin( 1, 6 ) ) c = 0; return s; }
static bool space( char c ) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' || c == '\v'; }
static std::string vis( const std::string& s ) { std::string o; for ( char c : s ) switch ( c ) { case ' ': o += "·"; break; case '\t': o += "→"; break; case '\n': o += "↵"; break; case '\r': o += "⏎"; break; case '\v': o += "⇕"; break; case '\f': o += "⌂"; break; default: o += c; } return o; }
static std::string trimmed( const std::string& s, const std::string& set ) { size_t b = 0, e = s.size(); while ( b < e && set.find( s[ b ] ) != std::string::npos ) ++b; while ( e > b && set.find( s[ e - 1 ] ) != std::string::npos ) --e; return s.substr( b, e - b ); }
// a copy at the end of its own allocation, without a terminator: reading past Len is a sanitizer report
struct Exact { char* p; size_t n; Exact( const std::string& s ) : p( new char[ s.size() ? s.size() : 1 ] ), n( s.size() ) { memcpy( p, s.data(), n ); } ~Exact() { delete[] p; } Str str() { return Str{ p, (ssize)n }; } };

void builder_case( pbt::Gen& g )
{
	std::vector<std::string> log; AllocatorInfo al = heap(); std::string m; StrBuilder s; bool nul = g.coin( 1, 6 ); if ( nul ) g.label( "with NULs" );
	Arena arena; std::vector<char> mem( 1 << 20 ); bool use_arena = g.coin( 1, 3 );
	if ( use_arena ) { arena = arena_init_from_memory( mem.data(), mem.size() ); al = arena_allocator_info( & arena ); log.push_back( "(arena)" ); }
	switch ( g.draw( 4 ) ) {
	case 0: m = text( g, 20 ); s = strbuilder_make_c_str( al, m.c_str() ); log.push_back( "make_c_str " + show( m ) ); break;
	case 1: { m = bytes( g, 20, nul ); Exact e( m ); s = g.coin() ? strbuilder_make_str( al, e.str() ) : strbuilder_make_length( al, e.p, (ssize)m.size() ); log.push_back( "make_str " + show( m ) ); } break;
	case 2: { int c = (int)g.range( 0, 50 ); s = strbuilder_make_reserve( al, c ); log.push_back( fmt( "make_reserve %d", c ) ); PBT_CHECK( strbuilder_capacity( s ) == c, "make_reserve capacity" ); } break;
	case 3: { std::vector<std::string> parts; int n = (int)g.range( 1, 6 ); for ( int i = 0; i < n; ++i ) parts.push_back( text( g, 8 ) ); std::string glue = text( g, 4 ); std::vector<const char*> p; for ( int i = 0; i < n; ++i ) { p.push_back( parts[ i ].c_str() ); m += parts[ i ]; if ( i + 1 < n ) m += glue; } s = strbuilder_join( al, p.data(), n, glue.c_str() ); log.push_back( fmt( "join n=%d", n ) ); } break;
	}
	bool grew = false, shrunk = false;
	auto same = [&]( const char* op ) {
		pbt::describe( g, dump( log ) );
		PBT_CHECK( strbuilder_length( s ) == (ssize)m.size(), "after %s: length %ld, model %zu", op, (long)strbuilder_length( s ), m.size() );
		PBT_CHECK( memcmp( (char*)s, m.data(), m.size() ) == 0, "after %s: content '%s', model '%s'", op, show( std::string( (char*)s, m.size() ) ).c_str(), show( m ).c_str() );
		PBT_CHECK( ( (char*)s )[ m.size() ] == 0, "after %s: not NUL terminated", op );
		PBT_CHECK( strbuilder_capacity( s ) >= (ssize)m.size(), "after %s: capacity %ld < length %zu", op, (long)strbuilder_capacity( s ), m.size() );
		PBT_CHECK( strbuilder_avail_space( s ) == strbuilder_capacity( s ) - (ssize)m.size(), "after %s: avail_space", op );
		PBT_CHECK( strbuilder_get_header( s )->Allocator.Proc == al.Proc, "after %s: allocator changed", op );
	};
	same( "make" );
	int steps = g.many( 1, 8 + g.size / 3, [&]( int ) {
		ssize cap = strbuilder_capacity( s );
		if ( m.size() > 60000 ) return;
		switch ( g.weighted( { 5, 5, 5, 4, 4, 2, 2, 2, 1, 2, 2, 5, 5, 3, 2, 1 } ) ) {
		case 0: { char c = ALPHA[ g.draw( strlen( ALPHA ) ) ]; log.push_back( "append_char " + show( std::string( 1, c ) ) ); PBT_CHECK( strbuilder_append_char( & s, c ), "append_char failed" ); m += c; same( "append_char" ); } break;
		case 1: { std::string t = text( g, 30 ); log.push_back( "append_c_str " + show( t ) ); PBT_CHECK( g.coin() ? s.append( t.c_str() ) : strbuilder_append_c_str( & s, t.c_str() ), "append_c_str failed" ); m += t; same( "append_c_str" ); } break;
		case 2: { std::string t = bytes( g, 30, nul ); Exact e( t ); log.push_back( "append_str " + show( t ) ); PBT_CHECK( strbuilder_append_str( & s, e.str() ), "append_str failed" ); m += t; same( "append_str" ); } break;
		case 3: { std::string t = bytes( g, 30, nul ); StrBuilder o = strbuilder_make_str( heap(), gx::S( t ) ); log.push_back( "append_string " + show( t ) ); PBT_CHECK( strbuilder_append_string( & s, o ), "append_string failed" ); m += t; same( "append_string" ); PBT_CHECK( gx::X( o ) == t, "append_string changed its argument" ); strbuilder_free( & o ); } break;
		case 4: { std::string t = text( g, 20 ); if ( g.coin( 1, 40 ) ) { std::string big; while ( big.size() < 140000 ) big += "0123456789abcdefghijklmnopqrstuvwxyz\n"; t = big; g.label( "formatted append beyond 128K" ); } int v = (int)g.range( -100000, 100000 );
			log.push_back( fmt( "append_fmt [%%S|%%d] %d, %zu chars", v, t.size() ) ); bool ok = g.coin() ? s.append_fmt( "[%S|%d]", gx::S( t ), v ) : strbuilder_append_fmt( & s, "[%S|%d]", gx::S( t ), v ); PBT_CHECK( ok, "append_fmt failed" ); m += "[" + t + "|" + std::to_string( v ) + "]"; same( "append_fmt" ); } break;
		case 5: { if ( nul ) return; log.push_back( "trim_space" ); m = trimmed( m, " \t\r\n\v\f" ); strbuilder_trim_space( s ); same( "trim_space" ); shrunk = true; } break;
		case 6: { if ( nul ) return; std::string set = g.str( ALPHA, 1, 4 ); log.push_back( "trim " + show( set ) ); m = trimmed( m, set ); strbuilder_trim( s, set.c_str() ); same( "trim" ); shrunk = true; } break;
		case 7: { if ( nul ) return; log.push_back( "strip_space" ); std::string o; for ( char c : m ) if ( ! space( c ) ) o += c; m = o; strbuilder_strip_space( s ); same( "strip_space" ); shrunk = true; } break;
		case 8: { log.push_back( "clear" ); strbuilder_clear( s ); m.clear(); same( "clear" ); PBT_CHECK( strbuilder_capacity( s ) == cap, "clear changed the capacity" ); shrunk = true; } break;
		case 9: { ssize n = (ssize)g.range( 0, 200 ); log.push_back( fmt( "make_space_for %ld", (long)n ) ); PBT_CHECK( strbuilder_make_space_for( & s, "", n ), "make_space_for failed" ); PBT_CHECK( strbuilder_avail_space( s ) >= n, "make_space_for %ld leaves %ld", (long)n, (long)strbuilder_avail_space( s ) ); same( "make_space_for" ); } break;
		case 10: { StrBuilder d = strbuilder_duplicate( s, heap() ); log.push_back( "duplicate" ); PBT_CHECK( gx::X( d ) == m && ( (char*)d )[ m.size() ] == 0, "duplicate differs" ); strbuilder_append_char( & d, 'z' ); same( "duplicate then append to the copy" ); PBT_CHECK( ! strbuilder_are_equal( s, d ), "are_equal on different strings" ); strbuilder_free( & d ); } break;
		case 11: case 12: {   // queries against a related string
			std::string t; switch ( g.draw( 5 ) ) { case 0: t = text( g, 10 ); break; case 1: { size_t b = g.draw( m.size() + 1 ); t = m.substr( b, g.draw( m.size() - b + 1 ) ); } break; case 2: t = m.substr( 0, g.draw( m.size() + 1 ) ); break; case 3: t = m; if ( t.size() ) t[ g.draw( t.size() ) ] ^= 1; break; default: t = m.substr( 0, g.draw( m.size() + 1 ) ); if ( t.size() ) t.back() ^= 2; break; }
			if ( nul && t.size() && g.coin() ) { size_t i = g.draw( t.size() ); t[ i ] = t[ i ] ? 0 : 'a'; }
			Exact e( t ); StrBuilder o = strbuilder_make_str( heap(), e.str() );
			log.push_back( "query " + show( t ) ); pbt::describe( g, dump( log ) );
			bool eq = t == m, has = m.find( t ) != std::string::npos, pre = m.compare( 0, t.size(), t ) == 0;
			PBT_CHECK( strbuilder_are_equal( s, o ) == eq && s.is_equal( o ) == eq, "are_equal('%s','%s') != %d", show( m ).c_str(), show( t ).c_str(), eq );
			PBT_CHECK( strbuilder_are_equal_str( s, e.str() ) == eq, "are_equal_str('%s','%s') != %d", show( m ).c_str(), show( t ).c_str(), eq );
			PBT_CHECK( strbuilder_contains_str( s, e.str() ) == has, "contains_str('%s','%s') != %d", show( m ).c_str(), show( t ).c_str(), has );
			PBT_CHECK( strbuilder_contains_string( s, o ) == has, "contains_string('%s','%s') != %d", show( m ).c_str(), show( t ).c_str(), has );
			PBT_CHECK( !! strbuilder_starts_with_str( s, e.str() ) == pre, "starts_with_str('%s','%s') != %d", show( m ).c_str(), show( t ).c_str(), pre );
			PBT_CHECK( !! strbuilder_starts_with_string( s, o ) == pre, "starts_with_string('%s','%s') != %d", show( m ).c_str(), show( t ).c_str(), pre );
			Exact me( m ); Str ms = me.str();
			PBT_CHECK( str_are_equal( ms, e.str() ) == eq, "str_are_equal('%s','%s') != %d", show( m ).c_str(), show( t ).c_str(), eq );
			PBT_CHECK( str_contains( ms, e.str() ) == has, "str_contains('%s','%s') != %d", show( m ).c_str(), show( t ).c_str(), has );
			PBT_CHECK( !! str_starts_with( ms, e.str() ) == pre, "str_starts_with('%s','%s') != %d", show( m ).c_str(), show( t ).c_str(), pre );
			g.label( eq ? "query equal" : pre ? "query prefix" : has ? "query substring" : "query unrelated" );
			strbuilder_free( & o ); } break;
		case 13: { log.push_back( "visualize_whitespace" ); StrBuilder v = strbuilder_visualize_whitespace( s ); PBT_CHECK( gx::X( v ) == vis( m ), "visualize_whitespace gives '%s'", show( gx::X( v ) ).c_str() ); same( "visualize_whitespace" ); Exact me( m ); Str v2 = str_visualize_whitespace( me.str(), heap() ); PBT_CHECK( gx::X( v2 ) == vis( m ), "str_visualize_whitespace" ); } break;
		case 14: { if ( m.empty() ) return; PBT_CHECK( strbuilder_back( s ) == (char*)s + m.size() - 1, "back" ); Str t = strbuilder_to_str( s ); PBT_CHECK( gx::X( t ) == m && str_back( t ) == t.Ptr + m.size() - 1, "to_str / str_back" ); std::string it; for ( char* c = strbuilder_begin( s ); c != strbuilder_end( s ); c = strbuilder_next( s, c ) ) it += *c; PBT_CHECK( it == m, "iteration" ); Exact me( m ); Str d = str_duplicate( me.str(), heap() ); PBT_CHECK( gx::X( d ) == m && d.Ptr != me.p, "str_duplicate" ); } break;
		case 15: { std::string t = text( g, 20 ); char buf[ 256 ]; StrBuilder f = strbuilder_fmt( heap(), buf, sizeof buf, "<%s>%S", t.c_str(), gx::S( t ) ); std::string want = "<" + t + ">" + t; if ( want.size() < 250 ) PBT_CHECK( gx::X( f ) == want, "strbuilder_fmt gives '%s', expected '%s'", show( gx::X( f ) ).c_str(), show( want ).c_str() ); StrBuilder f2 = strbuilder_fmt_buf( heap(), "<%s>%S", t.c_str(), gx::S( t ) ); PBT_CHECK( gx::X( f2 ) == want, "strbuilder_fmt_buf" ); } break;
		}
		grew |= strbuilder_capacity( s ) > cap;
	}, 12 );
	if ( ! use_arena ) strbuilder_free( & s );
	pbt::describe( g, dump( log ) ); g.nontrivial = steps > 3 && ( grew || shrunk ) && m.size();
	if ( grew ) g.label( "reallocated" ); if ( shrunk ) g.label( "shortened" ); if ( use_arena ) g.label( "arena backed" );
}

static int sgn( long v ) { return v < 0 ? -1 : v > 0; }
void c_str_case( pbt::Gen& g )
{
	std::string a = text( g, 24 ), b = g.coin() ? text( g, 24 ) : a;
	if ( b == a && a.size() && g.coin() ) { size_t i = g.draw( a.size() ); b[ i ] = (char)( b[ i ] ^ ( 1 << g.draw( 7 ) ) ); if ( ! b[ i ] ) b[ i ] = 'q'; }
	if ( g.coin( 1, 3 ) ) b = b.substr( 0, g.draw( b.size() + 1 ) );
	long n = g.range( 0, 30 ); char c = g.coin() && a.size() ? a[ g.draw( a.size() ) ] : (char)g.range( 0, 127 );
	std::string set = g.str( ALPHA, 0, 4 ) + "";
	pbt::describe( g, "a = '" + show( a ) + "' b = '" + show( b ) + fmt( "' n = %ld c = %d set = '", n, c ) + show( set ) + "'" );
	g.nontrivial = a.size() > 2; if ( a != b && a.substr( 0, 1 ) == b.substr( 0, 1 ) ) g.label( "shared first character" );
	const char *A = a.c_str(), *B = b.c_str();
	PBT_CHECK( c_str_len( A ) == (ssize)strlen( A ), "c_str_len" );
	PBT_CHECK( sgn( c_str_compare( A, B ) ) == sgn( strcmp( A, B ) ), "c_str_compare sign %d, strcmp %d", c_str_compare( A, B ), strcmp( A, B ) );
	PBT_CHECK( sgn( c_str_compare_len( A, B, n ) ) == sgn( strncmp( A, B, n ) ), "c_str_compare_len sign %d, strncmp %d", c_str_compare_len( A, B, n ), strncmp( A, B, n ) );
	PBT_CHECK( char_first_occurence( A, c ) == strchr( A, c ), "char_first_occurence" );
	{ std::string e( a ); e.resize( n, 0 ); char* buf = new char[ n ? n : 1 ]; memset( buf, 0x5a, n ? n : 1 ); c_str_copy( buf, A, n ); PBT_CHECK( memcmp( buf, e.data(), n ) == 0, "c_str_copy" ); memset( buf, 0x5a, n ? n : 1 ); ssize r = c_str_copy_nulpad( buf, A, n ); PBT_CHECK( memcmp( buf, e.data(), n ) == 0 && r == (ssize)std::min<size_t>( n, a.size() ), "c_str_copy_nulpad" ); delete[] buf; }
	{ size_t p = 0; while ( p < a.size() && a[ p ] != c ) ++p; PBT_CHECK( c_str_skip( A, c ) == A + p, "c_str_skip" ); }
	{ size_t p = a.find_first_of( set ); if ( p == std::string::npos ) p = a.size(); PBT_CHECK( c_str_skip_any( A, set.c_str() ) == A + p, "c_str_skip_any" ); }
	for ( int nl = 0; nl < 2; ++nl ) { size_t p = 0; while ( p < a.size() && space( a[ p ] ) && ! ( nl && a[ p ] == '\n' ) ) ++p; PBT_CHECK( c_str_trim( A, nl ) == A + p, "c_str_trim(%d)", nl ); }
	{ std::string r( a ), lo( a ), up( a ); std::reverse( r.begin(), r.end() ); for ( auto& x : lo ) if ( x >= 'A' && x <= 'Z' ) x += 32; for ( auto& x : up ) if ( x >= 'a' && x <= 'z' ) x -= 32;
	  std::vector<char> t( A, A + a.size() + 1 ); c_str_reverse( t.data() ); PBT_CHECK( r == t.data(), "c_str_reverse" ); t.assign( A, A + a.size() + 1 ); c_str_to_lower( t.data() ); PBT_CHECK( lo == t.data(), "c_str_to_lower" ); t.assign( A, A + a.size() + 1 ); c_str_to_upper( t.data() ); PBT_CHECK( up == t.data(), "c_str_to_upper" ); }
	{ std::vector<char> t( n ? n : 1, 'x' ); long z = g.range( 0, n ); if ( z < n ) t[ z ] = 0; PBT_CHECK( c_str_len_capped( t.data(), n ) == z, "c_str_len_capped: %ld, expected %ld", (long)c_str_len_capped( t.data(), n ), z ); }
	bool al = ( c >= 'a' && c <= 'z' ) || ( c >= 'A' && c <= 'Z' ), di = c >= '0' && c <= '9', hx = di || ( c >= 'a' && c <= 'f' ) || ( c >= 'A' && c <= 'F' );
	PBT_CHECK( !! char_is_alpha( c ) == al && !! char_is_digit( c ) == di && !! char_is_alphanumeric( c ) == ( al || di ) && !! char_is_hex_digit( c ) == hx && !! char_is_space( c ) == space( c ), "character classes of %d", c );
	if ( hx ) PBT_CHECK( hex_digit_to_int( c ) == (int)strtol( std::string( 1, c ).c_str(), nullptr, 16 ), "hex_digit_to_int(%c)", c );
	if ( di ) PBT_CHECK( digit_to_int( c ) == c - '0', "digit_to_int" );
	PBT_CHECK( char_to_lower( c ) == ( c >= 'A' && c <= 'Z' ? c + 32 : c ) && char_to_upper( c ) == ( c >= 'a' && c <= 'z' ? c - 32 : c ), "char_to_lower / upper" );
}

int main( int argc, char** argv )
{
	pbt::Engine e; e.cfg.property = "C10";
	e.cfg.rule = "StrBuilder history: more than 3 operations, the buffer was reallocated or shortened, final text not empty. c_str: first text longer than 2 characters. Distinct = distinct history / inputs.";
	e.suites.push_back( { "strbuilder", builder_case, 60000, 600000 } );
	e.suites.push_back( { "c_str",      c_str_case,   300000, 3000000, 400 } );
	return e.main( argc, argv );
}

// Formatted printing against a reference renderer, number <-> text conversion, and the checksums.
#include <math.h>
#include "gencpp.hpp"
using namespace gen;
using pbt::fmt; using pbt::show;

// A hand-made System V va_list whose arguments all come from `slots` (8 bytes per scalar, 16 per Str).
struct Args { std::vector<u64> slots; void i( u64 v ) { slots.push_back( v ); } void d( double v ) { u64 x; memcpy( &x, &v, 8 ); slots.push_back( x ); } };
struct VaRep { unsigned gp, fp; void* overflow; void* save; };
static void mk_va( va_list va, Args& a ) { VaRep r{ 48, 304, a.slots.data(), nullptr }; static_assert( sizeof( va_list ) == sizeof( VaRep ), "System V x86-64" ); memcpy( va, &r, sizeof r ); }

static std::string pad( const std::string& s, int width, bool left, char c ) { if ( (int)s.size() >= width ) return s; std::string p( width - s.size(), left && c == '0' ? ' ' : c ); return left ? s + p : p + s; }
static std::string up( std::string s ) { for ( auto& c : s ) if ( c >= 'a' && c <= 'z' ) c -= 32; return s; }
static s64 number( pbt::Gen& g ) {
	switch ( g.weighted( { 4, 2, 2, 2 } ) ) {
	case 0: return g.range( -120, 120 );
	case 1: { int b = (int)g.range( 0, 62 ); s64 v = (s64)( 1ull << b ) + g.range( -1, 1 ); return g.coin() ? -v : v; }
	case 2: { s64 p = 1; int e = (int)g.range( 0, 18 ); while ( e-- ) p *= 10; p += g.range( -1, 1 ); return g.coin() ? -p : p; }
	default: return (s64)( g.bits( 64 ) & 0x7fffffffffffffffull ) * ( g.coin() ? 1 : -1 );
	}
}
static std::string word( pbt::Gen& g, int max ) { return g.str( "abcdefgXYZ01 _-%\\\"\n{}", 0, max ); }

struct Piece { std::string spec, text; };
void fmt_case( pbt::Gen& g )
{
	std::string f, want; Args a; std::vector<std::string> keep; keep.reserve( 64 ); std::vector<StrBuilder> sbs; bool has_f = false; int specs = 0; std::string desc;
	struct FreeAll { std::vector<StrBuilder>& v; ~FreeAll() { for ( auto& s : v ) strbuilder_free( & s ); } } fr{ sbs };
	g.many( 1, 14, [&]( int ) {
		if ( g.coin( 2, 5 ) ) { std::string t = word( g, 12 ); for ( char c : t ) { if ( c == '%' ) { f += "%%"; want += '%'; specs++; } else { f += c; want += c; } } return; }
		++specs; std::string sp = "%"; bool left = g.coin( 1, 4 ), zero = ! left && g.coin( 1, 5 ), plain = g.coin( 2, 5 ); int width = 0; if ( plain ) left = zero = false;
		enum { INT, UINT, HEX, HEXU, OCT, CHR, STR, PSTR, GSTR, SB, REP, PTR, PCT } k = (decltype( INT ))g.weighted( { 6, 4, 3, 3, 2, 3, 5, 3, 6, 3, 2, 1, 1 } );
		if ( k == PTR ) zero = false;
		if ( left ) sp += '-'; if ( zero ) sp += '0';
		if ( ! plain || k == REP ) {
			width = (int)( g.coin( 1, 8 ) ? g.range( 20, 90 ) : g.range( 1, 14 ) );
			bool star = g.coin( 1, 3 ), neg = star && ! zero && k != REP && ! left && g.coin( 1, 4 );
			if ( star ) { sp += "*"; a.i( (u64)(unsigned)( neg ? -width : width ) ); if ( neg ) left = true; } else sp += std::to_string( width );
		}
		char pc = zero ? '0' : ' ';
		s64 v = number( g ); std::string t;
		const char* mods[] = { "", "h", "hh", "l", "ll", "t" }; int m = (int)g.draw( k == INT ? 6 : 5 ); char b[ 128 ];
		switch ( k ) {
		case INT: { bool z = g.coin( 1, 8 ); if ( zero || z ) v &= 0x7fffffffffffffffll; if ( z ) { sp += "z"; m = 4; } else sp += mods[ m ];
			if ( zero ) v &= m == 1 ? 0x7fff : m == 2 ? 0x7f : m == 0 ? 0x7fffffff : ~0ull;
			sp += g.pick( { "d", "i" } ); snprintf( b, sizeof b, "%lld", m == 0 ? (long long)(int)v : m == 1 ? (long long)(short)v : m == 2 ? (long long)(signed char)v : (long long)v ); a.i( (u64)v ); t = b; } break;
		case UINT: case HEX: case HEXU: { if ( g.coin( 1, 8 ) ) { sp += "z"; m = 4; } else sp += mods[ m ]; u64 u = (u64)v; u = m == 0 ? (unsigned)u : m == 1 ? (unsigned short)u : m == 2 ? (unsigned char)u : u; a.i( (u64)v );
			sp += k == UINT ? "u" : k == HEX ? "x" : "X"; snprintf( b, sizeof b, k == UINT ? "%llu" : k == HEX ? "%llx" : "%llX", (unsigned long long)u ); t = b; } break;
		case OCT: { v &= m == 0 ? 0x7fffffff : m == 1 ? 0x7fff : m == 2 ? 0x7f : 0x7fffffffffffffffll; sp += mods[ m ]; sp += "o"; a.i( (u64)v ); snprintf( b, sizeof b, "%llo", (long long)v ); t = b; } break;
		case CHR: { char c = (char)g.range( 33, 126 ); a.i( (u64)c ); sp += "c"; t = std::string( 1, c ); } break;
		case STR: { keep.push_back( word( g, 30 ) ); a.i( (u64)(uintptr_t)keep.back().c_str() ); sp += "s"; t = keep.back(); } break;
		case PSTR: { zero = false; pc = ' '; keep.push_back( word( g, 30 ) ); int p = (int)g.range( 0, keep.back().size() ); if ( g.coin() ) sp += fmt( ".%ds", p ); else { sp += ".*s"; a.i( (u64)p ); } a.i( (u64)(uintptr_t)keep.back().c_str() ); t = keep.back().substr( 0, p ); } break;
		case GSTR: { keep.push_back( word( g, 30 ) + "TAIL" ); int p = (int)keep.back().size() - 4; a.i( (u64)(uintptr_t)keep.back().c_str() ); a.i( (u64)p ); sp += "S"; t = keep.back().substr( 0, p ); } break;
		case SB: { std::string w = word( g, 30 ); sbs.push_back( strbuilder_make_str( heap(), gx::S( w ) ) ); a.i( (u64)(uintptr_t)(char*)sbs.back() ); sp += "SB"; t = w; } break;
		case REP: { char c = (char)g.range( 33, 126 ); a.i( (u64)c ); sp += "r"; t = std::string( width, c ); } break;
		case PTR: { u64 u = (u64)v; a.i( u ); sp += "p"; snprintf( b, sizeof b, "%llx", (unsigned long long)u ); t = b; } break;
		case PCT: { sp += "%"; t = "%"; } break;
		}
		f += sp; want += pad( t, width, left, pc );
		// a format text must not continue the conversion that precedes it
		if ( k == GSTR ) { f += "|"; want += "|"; }
	}, 8 );
	size_t full = want.size(); ssize n = g.coin( 1, 3 ) ? (ssize)g.range( 1, full + 2 ) : (ssize)full + 2 + (ssize)g.range( 0, 40 );
	pbt::describe( g, "format \"" + show( f ) + fmt( "\" into %ld bytes, expected \"", (long)n ) + show( want ) + "\"" );
	a.slots.resize( a.slots.size() + 4 );
	struct Buf { char* p; ~Buf() { delete[] p; } } buf{ new char[ n ] }; memset( buf.p, 0x5a, n );
	va_list va; mk_va( va, a ); ssize r = c_str_fmt_va( buf.p, n, f.c_str(), va );
	bool fits = (ssize)full + 1 < n;
	if ( fits ) { PBT_CHECK( r == (ssize)full + 1, "returned %ld, the text has %zu characters", (long)r, full ); PBT_CHECK( std::string( buf.p, full ) == want && buf.p[ full ] == 0, "printed \"%s\"", show( std::string( buf.p, full ) ).c_str() ); }
	else {
		PBT_CHECK( r == -1, "returned %ld, the text of %zu characters does not fit %ld bytes", (long)r, full, (long)n );
		std::string cut = want.substr( 0, std::min<size_t>( full, n - 1 ) );
		PBT_CHECK( memchr( buf.p, 0, n ) != nullptr, "the truncated text is not terminated" );
		PBT_CHECK( std::string( buf.p ) == cut, "truncated to \"%s\", expected \"%s\"", show( std::string( buf.p ) ).c_str(), show( cut ).c_str() );
	}
	// the other entry points agree
	{ va_list v2; mk_va( v2, a ); char* s = c_str_fmt_buf_va( f.c_str(), v2 ); PBT_CHECK( want == s, "c_str_fmt_buf gives \"%s\"", show( s ).c_str() ); }
	g.nontrivial = specs >= 2; g.label( fits ? "fits" : "truncated" );
}

void float_case( pbt::Gen& g )
{
	int kind = (int)g.draw( 4 ); double v = kind == 0 ? (double)g.range( -1000, 1000 ) : kind == 1 ? g.range( -100000, 100000 ) / 1024.0 : kind == 2 ? g.range( -1000000, 1000000 ) / 1000.0 : (double)g.range( -( 1ll << 46 ), 1ll << 46 ) / ( 1 << 6 );
	int prec = (int)g.range( 0, 9 ); bool def = g.coin( 1, 3 ); if ( def ) prec = 6; int width = g.coin( 1, 3 ) ? (int)g.range( 1, 24 ) : 0;
	std::string f = "%"; if ( width ) f += std::to_string( width ); if ( ! def ) f += "." + std::to_string( prec ); f += "f|%d";
	pbt::describe( g, fmt( "%.17g with \"%s\"", v, f.c_str() ) );
	char b[ 256 ]; memset( b, 0x5a, sizeof b ); ssize r = c_str_fmt( b, sizeof b, f.c_str(), v, 42 ); std::string s( b ); PBT_CHECK( r == (ssize)s.size() + 1, "returned %ld for \"%s\"", (long)r, s.c_str() );
	size_t bar = s.find( '|' ); PBT_CHECK( bar != std::string::npos && s.substr( bar ) == "|42", "printed \"%s\"", s.c_str() ); s.resize( bar );
	PBT_CHECK( (int)s.size() >= width, "printed \"%s\", narrower than %d", s.c_str(), width ); size_t sp = s.find_first_not_of( ' ' ); PBT_CHECK( sp != std::string::npos, "blank" ); if ( sp ) PBT_CHECK( (int)s.size() == width, "over-padded: \"%s\"", s.c_str() ); s = s.substr( sp );
	if ( v == 0 ) { PBT_CHECK( s == "0", "zero prints as \"%s\"", s.c_str() ); }
	else {
		size_t i = v < 0; PBT_CHECK( ! i || s[ 0 ] == '-', "sign lost: \"%s\"", s.c_str() ); size_t d = i; while ( d < s.size() && isdigit( s[ d ] ) ) ++d; PBT_CHECK( d > i, "no digits: \"%s\"", s.c_str() );
		if ( prec ) { PBT_CHECK( d < s.size() && s[ d ] == '.', "no fraction: \"%s\"", s.c_str() ); size_t e = d + 1; while ( e < s.size() && isdigit( s[ e ] ) ) ++e; PBT_CHECK( e == s.size() && (int)( e - d - 1 ) == prec, "\"%s\" does not have %d decimals", s.c_str(), prec ); } else PBT_CHECK( d == s.size(), "\"%s\" has a fraction", s.c_str() );
		double q = strtod( s.c_str(), nullptr ); PBT_CHECK( fabs( q - v ) <= 1.05 * pow( 10, -prec ) + fabs( v ) * 1e-14, "\"%s\" is %.17g", s.c_str(), q );
	}
	{   // in any buffer, and by its other names
		std::string full( b ), f2 = f; bool zero = width && def && v >= 0 && g.coin(); if ( zero ) { f2.insert( 1, "0" ); size_t k = 0; while ( full[ k ] == ' ' ) full[ k++ ] = '0'; } f2[ f2.find( 'f' ) ] = g.pick( std::vector<char>{ 'f', 'F', 'g', 'G' } );
		ssize n = (ssize)g.range( 1, full.size() + 4 ); struct Buf { char* p; ~Buf() { delete[] p; } } buf{ new char[ n ] }; memset( buf.p, 0x5a, n ); r = c_str_fmt( buf.p, n, f2.c_str(), v, 42 ); bool fits = (ssize)full.size() + 1 < n;
		PBT_CHECK( fits ? r == (ssize)full.size() + 1 : r == -1, "\"%s\" into %ld bytes returned %ld, the text is \"%s\"", f2.c_str(), (long)n, (long)r, full.c_str() );
		PBT_CHECK( memchr( buf.p, 0, n ) && full.substr( 0, fits ? full.size() : std::min<size_t>( full.size(), n - 1 ) ) == buf.p, "\"%s\" into %ld bytes gave \"%s\", the text is \"%s\"", f2.c_str(), (long)n, std::string( buf.p, strnlen( buf.p, n ) ).c_str(), full.c_str() );
	}
	g.nontrivial = v != (double)(s64)v && prec;
}

void number_case( pbt::Gen& g )
{
	s64 v = number( g ); u64 u = g.coin() ? (u64)v : g.bits( 64 ); int base = g.coin() ? (int)g.pick( std::vector<int>{ 2, 8, 10, 16 } ) : (int)g.range( 2, 64 );
	const char* alpha = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz@$";
	auto render = [&]( u64 x ) { std::string s; do { s += alpha[ x % base ]; x /= base; } while ( x ); std::reverse( s.begin(), s.end() ); return s; };
	std::string tail = g.str( " ,.;xg)-", 0, 3 ); if ( tail == "x" ) tail = "";
	pbt::describe( g, fmt( "%lld / %llu in base %d, tail \"%s\"", (long long)v, (unsigned long long)u, base, tail.c_str() ) );
	char b[ 160 ]; memset( b, 0x5a, sizeof b ); i64_to_str( v, b, base ); std::string w = ( v < 0 ? "-" : "" ) + render( v < 0 ? 0 - (u64)v : (u64)v ); PBT_CHECK( w == b, "i64_to_str gives \"%s\", expected \"%s\"", b, w.c_str() );
	memset( b, 0x5a, sizeof b ); u64_to_str( u, b, base ); PBT_CHECK( render( u ) == b, "u64_to_str gives \"%s\", expected \"%s\"", b, render( u ).c_str() );
	// text -> integer
	int pb = (int)g.pick( std::vector<int>{ 0, 10, 16, 2, 8 } ); s64 lim = v; int rb = pb == 0 ? 10 : pb; bool hex0 = pb == 0 && g.coin(); std::string t; { int keep = base; base = hex0 ? 16 : rb; bool neg = lim < 0 && ! hex0; u64 mag = lim < 0 ? 0 - (u64)lim : (u64)lim; t = render( mag ); if ( ( rb == 16 || hex0 ) && g.coin() ) for ( auto& c : t ) if ( c >= 'A' && c <= 'F' ) c += 32; if ( hex0 || ( pb == 16 && g.coin() ) ) t = "0x" + t; if ( neg ) t = "-" + t; lim = neg ? -(s64)mag : (s64)mag; base = keep; }
	// the tail must not extend the number
	if ( tail.size() && ( tail[ 0 ] == 'x' ) ) tail = " " + tail;
	std::string in = t + tail; struct Buf { char* p; ~Buf() { delete[] p; } } ex{ new char[ in.size() + 1 ] }; memcpy( ex.p, in.c_str(), in.size() + 1 );
	char* end = nullptr; s64 r = c_str_to_i64( ex.p, & end, pb ); PBT_CHECK( r == lim && end == ex.p + t.size(), "c_str_to_i64(\"%s\", base %d) = %lld, end +%ld; expected %lld, end +%zu", in.c_str(), pb, (long long)r, (long)( end - ex.p ), (long long)lim, t.size() );
	PBT_CHECK( c_str_to_i64( ex.p, nullptr, pb ) == lim, "c_str_to_i64 without end pointer" );
	// text -> float
	std::string ft = g.str( " \t", 0, 2 ); ft += g.pick( { "", "-", "+" } ); ft += std::to_string( g.range( 0, g.coin() ? 99 : 99999999 ) ); if ( g.coin() ) { ft += "."; ft += g.str( "0123456789", 0, 8 ); } if ( g.coin( 1, 3 ) ) { ft += g.pick( { "e", "E" } ); ft += g.pick( { "", "-", "+" } ); ft += std::to_string( g.range( 0, 280 ) ); }
	std::string fin = ft + g.pick( { "", " ", ",", "f", "z1" } ); std::vector<char> fb( fin.begin(), fin.end() ); fb.push_back( 0 ); char* fe = nullptr; f64 fv = c_str_to_f64( fb.data(), & fe ); char* se = nullptr; double sv = strtod( fin.c_str(), & se );
	PBT_CHECK( fabs( fv - sv ) <= fabs( sv ) * 1e-13, "c_str_to_f64(\"%s\") = %.17g, expected %.17g", fin.c_str(), fv, sv ); PBT_CHECK( fe - fb.data() == se - fin.c_str(), "c_str_to_f64(\"%s\") stops at +%ld, expected +%ld", fin.c_str(), (long)( fe - fb.data() ), (long)( se - fin.c_str() ) );
	g.nontrivial = v > 9 || v < -9;
}

static u32 ref32( const std::string& s ) { u32 c = ~0u; for ( unsigned char x : s ) { c ^= x; for ( int k = 0; k < 8; ++k ) c = c & 1 ? ( c >> 1 ) ^ 0xEDB88320u : c >> 1; } return ~c; }
static u64 ref64( const std::string& s ) { u64 c = 0; for ( unsigned char x : s ) { c ^= x; for ( int k = 0; k < 8; ++k ) c = c & 1 ? ( c >> 1 ) ^ 0x95AC9329AC4BC9B5ull : c >> 1; } return c; }
void crc_case( pbt::Gen& g )
{
	std::string s; int n = (int)( g.coin( 1, 5 ) ? g.range( 0, 600 ) : g.range( 0, 40 ) ); for ( int i = 0; i < n; ++i ) s += (char)g.draw( 256 );
	pbt::describe( g, show( s ) ); struct Buf { char* p; ~Buf() { delete[] p; } } b{ new char[ s.size() ? s.size() : 1 ] }; memcpy( b.p, s.data(), s.size() );
	PBT_CHECK( gen::crc32( b.p, (ssize)s.size() ) == ref32( s ), "crc32 of %zu bytes is %08x, expected %08x", s.size(), gen::crc32( b.p, (ssize)s.size() ), ref32( s ) );
	PBT_CHECK( gen::crc64( b.p, (ssize)s.size() ) == ref64( s ), "crc64 of %zu bytes", s.size() );
	g.nontrivial = s.size() > 1;
}

int main( int argc, char** argv )
{
	pbt::Engine e; e.cfg.property = "C13";
	e.cfg.rule = "fmt: at least two conversions; float: a fraction is printed; number: more than one digit; crc: more than one byte. Distinct = distinct format and arguments / value / bytes.";
	e.cfg.assumptions = { "x86-64 System V argument passing (the harness builds va_lists itself)", "binary floating point printing is compared within one unit of the last printed decimal" };
	e.suites.push_back( { "fmt",    fmt_case,    600000, 6000000, 1000 } );
	e.suites.push_back( { "float",  float_case,  400000, 4000000, 1000 } );
	e.suites.push_back( { "number", number_case, 500000, 5000000, 1000 } );
	e.suites.push_back( { "crc",    crc_case,    150000, 1500000, 1000 } );
	return e.main( argc, argv );
}

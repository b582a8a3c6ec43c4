// C22 - CSV tables parse into exactly their fields and survive being written.
#include "src_main.hpp"
#include <dirent.h>
static std::string root;
struct Field { std::string text, raw; };
struct Table { int cols = 0, rows = 0; std::vector<std::vector<Field>> v; std::string text; };   // v[ row ][ column ]
static Field field( pbt::Gen& g, char delim, bool only, bool last ) {
	Field f; bool q = g.coin( 1, 3 );
	if ( q ) { f.text = g.str( "ab\" ,;\t\n'x", 0, g.coin( 1, 10 ) ? 200 : 8 ); f.raw = "\""; for ( char c : f.text ) { f.raw += c; if ( c == '"' ) f.raw += c; } f.raw += "\""; }
	else switch ( g.weighted( { 6, 2, 2, 1 } ) ) {
	case 0: f.text = f.raw = g.str( "abcXYZ_01-+*/<>'", 1, g.coin( 1, 10 ) ? 300 : 8 ); break;
	case 1: f.text = f.raw = only ? "e" : ""; break;
	case 2: { std::string a = g.str( "abc", 1, 4 ), b = g.str( "de\"f", 1, 4 ); f.text = f.raw = a + g.pick( { " ", "  ", "\t" } ) + b; break; }
	case 3: f.text = f.raw = g.pick( { "0x1F", "0x", "0xZ", "12", "-1", "1.5", "0X1f", "0x0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef" } ); break;
	}
	(void)last; return f;
}
static Table table( pbt::Gen& g, char delim, int cols = 0 ) {
	Table t; t.cols = cols ? cols : 1 + (int)g.draw( 5 ); t.rows = 1 + (int)g.draw( g.coin( 1, 8 ) ? 60 : 6 ); std::string eol = g.coin( 1, 4 ) ? "\r\n" : "\n";
	auto blank = [&]() { return g.coin( 1, 8 ) ? std::string( g.pick( { " ", "  ", "\t" } ) ) : std::string(); };
	for ( int r = 0; r < t.rows; ++r ) {
		std::vector<Field> row; if ( g.coin( 1, 10 ) ) t.text += g.pick( { "\n", "\n\n", "  \n" } );   // empty lines hold no row
		for ( int c = 0; c < t.cols; ++c ) { Field f = field( g, delim, t.cols == 1, c + 1 == t.cols ); if ( f.raw.find( delim ) != std::string::npos && f.raw[ 0 ] != '"' ) f = Field{ "d", "d" }; row.push_back( f ); t.text += blank() + f.raw + blank() + ( c + 1 < t.cols ? std::string( 1, delim ) : r + 1 == t.rows && g.coin( 1, 4 ) ? "" : eol ); }
		t.v.push_back( row );
	}
	return t;
}
static std::string show( const Table& t ) { std::string o = "\"" + pbt::show( t.text ) + "\"\n" + t.text; return o.size() > 3000 ? o.substr( 0, 3000 ) : o; }
static std::string value( ADT_Node& n, const std::string& want ) {
	if ( n.type == EADT_TYPE_STRING ) return n.string ? n.string : "<null>";
	if ( n.type == EADT_TYPE_INTEGER && want.size() < 18 && (s64)strtoll( want.c_str(), 0, 0 ) == n.integer ) return want;
	return pbt::fmt( "<node of type %d>", (int)n.type );
}
static void check( CSV_Object& o, const Table& t, bool header, const std::string& what ) {
	PBT_CHECK( o.nodes && (int)array_num( o.nodes ) == t.cols, "%s: %d columns, not %d\n%s", what.c_str(), o.nodes ? (int)array_num( o.nodes ) : 0, t.cols, show( t ).c_str() );
	for ( int c = 0; c < t.cols; ++c ) {
		ADT_Node& col = o.nodes[ c ]; int first = header ? 1 : 0; PBT_CHECK( col.type == EADT_TYPE_ARRAY && (int)array_num( col.nodes ) == t.rows - first, "%s: column %d has %d rows, not %d\n%s", what.c_str(), c, (int)array_num( col.nodes ), t.rows - first, show( t ).c_str() );
		if ( header ) PBT_CHECK( col.name && t.v[ 0 ][ c ].text == col.name, "%s: column %d is named '%s', not '%s'\n%s", what.c_str(), c, col.name ? col.name : "null", t.v[ 0 ][ c ].text.c_str(), show( t ).c_str() ); else PBT_CHECK( ! col.name, "%s: a column has a name without a header", what.c_str() );
		for ( int r = first; r < t.rows; ++r ) { std::string w = t.v[ r ][ c ].text, h = value( col.nodes[ r - first ], w ); PBT_CHECK( h == w, "%s: row %d column %d is '%s', not '%s'\n%s", what.c_str(), r, c, h.c_str(), w.c_str(), show( t ).c_str() ); }
	}
}
static std::vector<char> copy( const std::string& s ) { std::vector<char> v( s.begin(), s.end() ); v.push_back( 0 ); v.shrink_to_fit(); return v; }
static void roundtrip( pbt::Gen& g ) {
	fresh(); char delim = g.pick( std::vector<char>{ ',', ',', ';', '|' } ); Table t = table( g, delim ); bool header = g.coin() && t.rows > 1; pbt::describe( g, std::string( 1, delim ) + ( header ? " with a header\n" : "\n" ) + show( t ) ); g.nontrivial = t.rows * t.cols > 3;
	auto buf = copy( t.text ); CSV_Object o; u8 e = delim == ',' ? csv_parse( & o, buf.data(), heap(), header ) : csv_parse_delimiter( & o, buf.data(), heap(), header, delim ); PBT_CHECK( e == ECSV_Error__NONE, "error %d\n%s", e, show( t ).c_str() ); check( o, t, header, "parsed" );
	StrBuilder s = delim == ',' ? csv_write_string( heap(), & o ) : csv_write_strbuilder_delimiter( heap(), & o, delim ); std::string out = gx::X( s ); strbuilder_free( & s );
	auto back = copy( out ); CSV_Object p; e = csv_parse_delimiter( & p, back.data(), heap(), header, delim ); PBT_CHECK( e == ECSV_Error__NONE, "what was written does not parse (error %d):\n%s\nwritten from\n%s", e, out.c_str(), show( t ).c_str() ); check( p, t, header, "written as\n" + out + "\nand parsed again" );
	csv_free( & o ); csv_free( & p );
}
static void mismatch( pbt::Gen& g ) {
	fresh(); Table t; int cols = 1 + (int)g.draw( 4 ), rows = 2 + (int)g.draw( 5 ), bad = (int)g.draw( rows ); int other = cols; while ( other == cols ) other = 1 + (int)g.draw( 5 ); for ( int r = 0; r < rows; ++r ) for ( int c = 0, n = r == bad ? other : cols; c < n; ++c ) t.text += g.str( "abc", 1, 3 ) + ( c + 1 < n ? "," : "\n" );
	pbt::describe( g, show( t ) ); g.nontrivial = rows > 2; auto buf = copy( t.text ); CSV_Object o; u8 e = csv_parse( & o, buf.data(), heap(), false ); PBT_CHECK( e == ECSV_Error__MISMATCHED_ROWS, "rows of different length gave %d\n%s", e, show( t ).c_str() ); csv_free( & o );
	std::string open = g.str( "ab,\n", 0, 8 ) + "\n\"" + g.str( "ab, \n", 0, 9 ); pbt::describe( g, open ); auto b2 = copy( open ); e = csv_parse( & o, b2.data(), heap(), false ); PBT_CHECK( e != ECSV_Error__NONE, "a quote that is not closed gave no error:\n%s", open.c_str() ); csv_free( & o );
	std::string none = g.str( " \n\t", 0, 5 ); auto b3 = copy( none ); e = csv_parse( & o, b3.data(), heap(), false ); PBT_CHECK( e == ECSV_Error__UNEXPECTED_END_OF_INPUT, "no text gave %d", e ); csv_free( & o );
}
static void columns( pbt::Gen& g ) {
	fresh(); bool two = g.coin(); Table t = table( g, ',', two ? 2 + (int)g.draw( 2 ) : 1 + (int)g.draw( 3 ) ); pbt::describe( g, show( t ) ); std::string p = root + "/" + std::to_string( getpid() ) + ".csv"; FILE* f = fopen( p.c_str(), "wb" ); if ( ! f ) abort(); fwrite( t.text.data(), 1, t.text.size(), f ); fclose( f ); g.nontrivial = t.rows > 2;
	auto col = [&]( Array( ADT_Node ) a, int c ) { PBT_CHECK( (int)array_num( a ) == t.rows, "%d rows, not %d\n%s", (int)array_num( a ), t.rows, show( t ).c_str() ); for ( int r = 0; r < t.rows; ++r ) { std::string w = t.v[ r ][ c ].text, h = value( a[ r ], w ); PBT_CHECK( h == w, "row %d of column %d is '%s', not '%s'\n%s", r, c, h.c_str(), w.c_str(), show( t ).c_str() ); } };
	if ( two ) { CSV_Columns2 k = parse_csv_two_columns( heap(), p.c_str() ); unlink( p.c_str() ); col( k.Col_1, 0 ); col( k.Col_2, 1 ); } else { CSV_Column k = parse_csv_one_column( heap(), p.c_str() ); unlink( p.c_str() ); col( k.Content, 0 ); }
}
int main( int argc, char** argv ) {
	char dir[] = "/tmp/pbt-c22-XXXXXX"; if ( ! mkdtemp( dir ) ) return 3; root = dir;
	int rc = run_main( argc, argv, "C22", "more than three fields; more than two rows", { { "tables", roundtrip, 12000, 500000, 300, 10 }, { "errors", mismatch, 6000, 200000, 300, 10 }, { "files", columns, 6000, 100000, 300, 10 } } );
	std::string cmd = root; if ( DIR* d = opendir( dir ) ) { while ( dirent* e = readdir( d ) ) if ( e->d_name[ 0 ] != '.' ) unlink( ( root + "/" + e->d_name ).c_str() ); closedir( d ); } rmdir( dir ); return rc;
}

// C17 - what a Builder writes is in the file, and files (and in-memory streams) read back what is in them.
// Every file lives in a scratch directory of this process, removed at its end.
#include "src_main.hpp"
#include <dirent.h>
static std::string root;
static std::string path( pbt::Gen& g, int i ) { return root + "/" + std::to_string( getpid() ) + "_" + std::to_string( i ) + g.pick( { ".txt", ".hpp", "", ".gen.cpp", " with spaces.h" } ); }
static void put( const std::string& p, const std::string& s ) { FILE* f = fopen( p.c_str(), "wb" ); if ( ! f ) abort(); fwrite( s.data(), 1, s.size(), f ); fclose( f ); }
static std::string get( const std::string& p ) { FILE* f = fopen( p.c_str(), "rb" ); if ( ! f ) return "<absent>"; std::string s; char b[ 65536 ]; size_t n; while ( ( n = fread( b, 1, sizeof b, f ) ) > 0 ) s.append( b, n ); fclose( f ); return s; }
struct Files { std::vector<std::string> v; ~Files() { for ( auto& p : v ) unlink( p.c_str() ); } };
static std::string cut( const std::string& s ) { return s.size() > 3000 ? s.substr( 0, 3000 ) + "..." : s; }
static void same( const std::string& have, const std::string& want, const std::string& log, const char* what ) { PBT_CHECK( have == want, "%s (%zu bytes, not %zu)\n%s\n%s", what, have.size(), want.size(), diff( have, want ).c_str(), cut( log ).c_str() ); }

// ---- Builder
static void builder( pbt::Gen& g ) {
	fresh(); std::string log; Files fs; struct B { Builder b; std::string want, path; bool open = true; }; std::vector<B> bs; int n = 1 + (int)g.draw( 3 ), ops = 0; long before = gx::failures;
	for ( int i = 0; i < n; ++i ) {
		B b; b.path = path( g, i ); fs.v.push_back( b.path ); if ( g.coin() ) { put( b.path, g.str( "old content\n", 0, 60 ) + std::string( 5000 * g.draw( 2 ), 'o' ) ); log += "existing "; }
		log += pbt::fmt( "open %d\n", i ); b.b = builder_open( b.path.c_str() ); PBT_CHECK( gx::failures == before, "builder_open failed\n%s", log.c_str() ); bs.push_back( b ); }
	g.many( 0, 24, [&]( int ) {
		int i = (int)g.draw( bs.size() ); B& b = bs[ i ]; if ( ! b.open ) return; ++ops; log += pbt::fmt( "%d ", i );
		switch ( g.weighted( { 3, 4, 5, 1 } ) ) {
		case 0: { int k = (int)g.draw( g.coin( 1, 5 ) ? 3000 : 6 ) - ( g.coin( 1, 8 ) ? 2 : 0 ); log += pbt::fmt( "pad_lines %d\n", k ); pbt::describe( g, log ); builder_pad_lines( & b.b, k ); if ( k > 0 ) b.want += std::string( k, '\n' ); break; }
		case 1: { if ( g.coin( 1, 16 ) ) { std::string big( 1 + g.draw( g.coin( 1, 3 ) ? 1200000 : 100000 ), (char)( 'A' + g.draw( 5 ) ) ); log += pbt::fmt( "print the untyped text of %zu of %c\n", big.size(), big[ 0 ] ); pbt::describe( g, log ); builder_print( & b.b, untyped_str( gx::S( big ) ) ); b.want += big; g.label( "large" ); break; }
			SG sg( g ); D d = sg.file( 2 ); std::string src = src::canonical( d.s ); log += "print the code of:\n" + src + "\n"; pbt::describe( g, log ); Code c = (Code)parse_global_body( gx::S( src ) ); std::string t = gx::X( code_to_strbuilder( c ) ); builder_print( & b.b, c ); b.want += t; break; }
		case 2: {
			std::string s = g.str( "ab%z\t\"\\ \n", 0, 30 ), u = g.coin( 1, 4 ) ? std::string( g.draw( g.coin( 1, 4 ) ? 90000 : 9000 ), (char)( 'a' + g.draw( 5 ) ) ) : g.str( "xyz", 0, 9 ); int v = (int)g.range( -1000000, 1000000 ); if ( s.empty() ) s = "_"; Str us = gx::S( u ); StrBuilder sb = strbuilder_make_length( ctx.Allocator_Temp, u.c_str(), (ssize)u.size() );
			log += pbt::fmt( "print_fmt %d \"%s\" and %zu of %c\n", v, pbt::show( s ).c_str(), u.size(), u.empty() ? '-' : u[ 0 ] ); pbt::describe( g, log );
			switch ( g.draw( 5 ) ) {
			case 0: builder_print_fmt( & b.b, "%s = %d;\n", s.c_str(), v ); b.want += s + " = " + std::to_string( v ) + ";\n"; break;
			case 1: builder_print_fmt( & b.b, "%S%%|%S", us, us ); b.want += u + "%|" + u; break;
			case 2: builder_print_fmt( & b.b, "%SB\n", sb ); b.want += u + "\n"; break;
			case 3: builder_print_fmt( & b.b, "%d%s%S%d", v, u.c_str(), us, v ); b.want += std::to_string( v ) + u + u + std::to_string( v ); break;
			case 4: builder_print_fmt( & b.b, "// only text\n" ); b.want += "// only text\n"; break;
			} break; }
		case 3: log += "write\n"; pbt::describe( g, log ); builder_write( & b.b ); b.open = false; same( get( b.path ), b.want, log, "the file holds other text than was printed" ); break;
		}
		if ( b.open ) same( gx::X( b.b.Buffer ), b.want, log, "the buffer holds other text than was printed" );
	}, 6 );
	for ( size_t i = 0; i < bs.size(); ++i ) if ( bs[ i ].open ) { log += pbt::fmt( "%zu write\n", i ); pbt::describe( g, log ); builder_write( & bs[ i ].b ); }
	for ( auto& b : bs ) same( get( b.path ), b.want, log, "the file holds other text than was printed" );
	PBT_CHECK( gx::failures == before, "reported as a failure\n%s", log.c_str() ); g.nontrivial = ops > 3; g.label( pbt::fmt( "%d builders", n ).c_str() );
	if ( g.coin( 1, 8 ) ) { // what cannot be opened or written is reported
		std::string p = root + "/absent/x.hpp"; builder_open( p.c_str() ); PBT_CHECK( gx::failures == before + 1, "opening a file in a directory that does not exist was not reported" );
		if ( access( "/dev/full", W_OK ) == 0 ) { Builder b = builder_open( "/dev/full" ); builder_print_fmt( & b, "text" ); builder_write( & b ); PBT_CHECK( gx::failures == before + 2, "a write that failed was not reported" ); } }
}
// ---- scan_file, parse_file, file_read_contents
static std::string line( pbt::Gen& g, bool block ) {
	switch ( g.draw( block ? 5 : 9 ) ) {
	case 0: return "#\tinclude \"a.hpp\""; case 1: return "#pragma once"; case 2: return "// a comment"; case 3: return ""; case 4: return "using namespace gen;";
	case 5: return g.pick( { "#ifdef OTHER", "#ifdef X", "# ifdef INTEL", "#if 1", "#ifndef INTELLISENSE", "#i", "#", "#ifdef" } ); case 6: return g.pick( { "#endif", "# endif // X", "#else", "#e", "#end" } ); case 7: return "int " + g.str( "abc", 1, 6 ) + " = 1;"; default: return "char const* s = \"text\";";
	}
}
static void scan( pbt::Gen& g ) {
	fresh(); std::string eol = g.coin( 1, 4 ) ? "\r\n" : "\n", s, want; Files fs; std::string p = path( g, 0 ); fs.v.push_back( p ); int before = (int)g.weighted( { 4, 1, 1, 1 } ), kind = (int)g.weighted( { 8, 3, 1 } );
	for ( int i = 0; i < before; ++i ) s += line( g, true ) + eol;
	std::string ind = g.pick( { "", "", " ", "\t" } ); bool skip = kind == 0;
	if ( kind != 1 ) { s += "#" + ind + "ifdef" + g.pick( { " ", "\t", "  " } ) + "INTELLISENSE_DIRECTIVES" + g.pick( { "", "", " ", " // editors" } ) + eol; int in = (int)g.draw( 6 ); for ( int i = 0; i < in; ++i ) s += line( g, true ) + eol; }
	if ( kind == 0 ) s += "#" + ind + "endif" + g.pick( { "", "", " // INTELLISENSE_DIRECTIVES", " " } );
	std::string rest; bool last = g.coin( 1, 8 ); if ( ! ( skip && last ) ) { if ( skip ) s += eol; int n = (int)g.draw( 12 ); for ( int i = 0; i < n; ++i ) rest += line( g, kind != 0 && false ) + ( i + 1 == n && g.coin( 1, 3 ) ? "" : eol ); if ( g.coin( 1, 6 ) ) rest += std::string( 20000, 'y' ) + eol; if ( ! skip ) { // no end of the block
			size_t at; while ( ( at = rest.find( "endif" ) ) != std::string::npos ) rest.replace( at, 5, "endi_" ); } s += rest; }
	if ( g.coin( 1, 12 ) ) { std::string big = "// " + std::string( 1 + g.draw( g.coin( 1, 3 ) ? 1500000 : 140000 ), (char)( 'p' + g.draw( 5 ) ) ) + "~\n"; if ( rest.size() && rest.back() != '\n' ) { rest += "\n"; s += "\n"; } if ( ! ( skip && rest.empty() ) ) { rest += big; s += big; g.label( "large" ); } }
	if ( s.empty() || ( skip && rest.find_first_not_of( "\r\n" ) == std::string::npos ) ) throw pbt::Discard{};
	want = skip ? rest : s; pbt::describe( g, "file:\n" + cut( s ) ); put( p, s ); long fails = gx::failures; g.nontrivial = skip && rest.size(); g.label( kind == 0 ? "block" : kind == 1 ? "no block" : "unfinished block" );
	Code c = scan_file( p.c_str() ); PBT_CHECK( c && c->Type == CT_Untyped && gx::failures == fails, "scan_file gave no text" );
	std::string have = gx::X( c->Content ); auto head = []( std::string t ) { size_t i = 0; while ( i < t.size() && ( t[ i ] == '\n' || t[ i ] == '\r' ) ) ++i; return t.substr( i ); };   // an empty line after the block may go with it
	if ( skip ) { PBT_CHECK( want.size() - have.size() <= 2, "%zu bytes, not %zu", have.size(), want.size() ); have = head( have ); want = head( want ); }
	same( have, want, s, "scan_file gave other text" );
	fails = gx::failures; FileContents f = file_read_contents( ctx.Allocator_Temp, true, p.c_str() ); PBT_CHECK( f.data && f.size == (ssize)s.size() && ((char*)f.data)[ f.size ] == 0, "file_read_contents: size" ); same( std::string( (char*)f.data, f.size ), s, s, "file_read_contents gave other text" );
	f = file_read_contents( heap(), false, p.c_str() ); PBT_CHECK( f.data && f.size == (ssize)s.size(), "file_read_contents: size" ); same( std::string( (char*)f.data, f.size ), s, s, "file_read_contents gave other text" ); allocator_free( heap(), f.data );
	same( get( p ), s, s, "reading changed the file" );
}
static void parsed( pbt::Gen& g ) {
	fresh(); SG sg( g ); D d = sg.file( 5 ); std::string s = src::canonical( d.s ) + g.pick( { "", "\n" } ); if ( g.coin( 1, 20 ) ) { size_t lines = 1000 + g.draw( 9000 ); s += "\n"; for ( size_t i = 0; i < lines; ++i ) s += "// " + std::to_string( i ) + " " + std::string( i % 3 ? 10 : 40, '.' ) + "\n"; g.label( "large" ); } pbt::describe( g, cut( s ) ); Files fs; std::string p = path( g, 0 ); fs.v.push_back( p ); put( p, s ); labels( g, d );
	long fails = gx::failures; Code c = (Code)parse_file( p.c_str() ); PBT_CHECK( c && c != Code_Invalid && gx::failures == fails, "parse_file failed" ); Code w = parse( s ); g.nontrivial = d.s.size() > 8;
	same( src::walk( c ), src::walk( w ), s, "parse_file gave another AST than parsing the text" ); same( text_of( c ), text_of( w ), s, "parse_file gave another AST than parsing the text" );
	if ( g.coin( 1, 8 ) ) { std::string e = path( g, 1 ); if ( g.coin() ) { put( e, "" ); fs.v.push_back( e ); } fails = gx::failures; FileContents f = file_read_contents( heap(), true, e.c_str() ); PBT_CHECK( ! f.data && f.size == 0, "an absent or empty file has content" );
		Code n = (Code)parse_file( e.c_str() ); PBT_CHECK( ( ! n || n == Code_Invalid || ! n->Front ) && gx::failures > fails, "parsing an absent or empty file was not reported" ); }
}
// ---- files and streams
static void files( pbt::Gen& g ) {
	enum { File, Stream, Clone, Fixed }; int kind = (int)g.draw( 4 ); static const char* kinds[] = { "file", "stream", "clone of a buffer", "fixed buffer" }; g.label( kinds[ kind ] );
	std::string log = std::string( kinds[ kind ] ) + "\n", m; FileInfo f; Files fs; std::string p = path( g, 0 ); fs.v.push_back( p ); FileMode mode = EFileMode_WRITE | EFileMode_RW; std::vector<u8> buf; std::string given; size_t pos = 0; bool app = false;
	if ( kind == File ) {
		if ( g.coin() ) { m = g.str( "0123456789", 1, 40 ); put( p, m ); log += "of " + m + "\n"; switch ( g.draw( 3 ) ) { case 0: mode = EFileMode_READ | EFileMode_RW; break; case 1: mode = EFileMode_APPEND | EFileMode_RW; app = true; break; default: m.clear(); } }
		else if ( g.coin( 1, 4 ) ) { FileError e = file_open( & f, p.c_str() ); PBT_CHECK( e != EFileError_NONE, "opened a file that does not exist" ); e = file_open_mode( & f, EFileMode_READ | EFileMode_RW, p.c_str() ); PBT_CHECK( e != EFileError_NONE && access( p.c_str(), F_OK ) != 0, "opened a file that does not exist for reading" ); }
		log += pbt::fmt( "mode %d\n", (int)mode ); pbt::describe( g, log ); PBT_CHECK( file_open_mode( & f, mode, p.c_str() ) == EFileError_NONE, "open\n%s", log.c_str() ); PBT_CHECK( file_name( & f ) == p, "file_name" );
	} else if ( kind == Stream ) { pbt::describe( g, log ); PBT_CHECK( file_stream_new( & f, heap() ), "stream" ); }
	else { given = m = g.str( "0123456789", kind == Fixed, 30 ); buf.assign( m.begin(), m.end() ); log += "\"" + m + "\"\n"; pbt::describe( g, log ); PBT_CHECK( file_stream_open( & f, heap(), buf.data(), (ssize)buf.size(), kind == Fixed ? EFileStream_WRITABLE : EFileStream_CLONE_WRITABLE ), "stream" ); }
	int writes = 0, reads = 0; ssize limit = kind == Fixed ? (ssize)m.size() : -1;
	auto modelw = [&]( size_t at, const std::string& s ) -> size_t { size_t n = s.size(); if ( app ) at = m.size(); if ( limit >= 0 ) n = at + n > (size_t)limit ? limit - at : n; if ( m.size() < at + n ) m.resize( at + n ); m.replace( at, n, s.substr( 0, n ) ); return n; };
	g.many( 1, 30, [&]( int ) {
		std::string s = g.str( "abcdefgh", 1, g.coin( 1, 5 ) ? 400 : 12 ); if ( g.coin( 1, 20 ) ) { s += std::string( g.draw( 150000 ), (char)( 'i' + g.draw( 9 ) ) ); g.label( "large" ); } ssize size = (ssize)g.draw( 20 ) + ( g.coin( 1, 5 ) ? 300 : 0 ) + ( g.coin( 1, 20 ) ? (ssize)g.draw( 200000 ) : 0 ); size_t at = g.draw( m.size() + 1 );
		if ( app && ( pos != m.size() ) ) { file_seek_to_end( & f ); pos = m.size(); }
		switch ( g.weighted( { 4, 3, 3, 3, 2, 1, 1 } ) ) {
		case 0: { if ( limit >= 0 && pos + s.size() > (size_t)limit ) s.resize( limit - pos ); if ( s.empty() ) return; log += "write " + cut( s ) + "\n"; pbt::describe( g, log ); PBT_CHECK( file_write( & f, s.data(), (ssize)s.size() ), "write failed\n%s", log.c_str() ); modelw( pos, s ); pos += s.size(); ++writes; break; }
		case 1: { log += pbt::fmt( "write at %zu ", at ) + cut( s ) + "\n"; pbt::describe( g, log ); ssize n = -1; PBT_CHECK( file_write_at_check( & f, s.data(), (ssize)s.size(), (s64)at, & n ), "write failed\n%s", log.c_str() ); size_t w = modelw( at, s ); PBT_CHECK( n == (ssize)w, "wrote %td of %zu\n%s", n, w, log.c_str() ); file_seek( & f, (s64)( pos = at ) ); ++writes; break; }
		case 2: { log += pbt::fmt( "read at %zu %td\n", at, size ); pbt::describe( g, log ); std::vector<char> b( size + 1, '#' ); ssize n = -1; PBT_CHECK( file_read_at_check( & f, b.data(), size, (s64)at, & n ), "read failed\n%s", log.c_str() ); std::string w = m.substr( at, size ); PBT_CHECK( n == (ssize)w.size(), "read %td of %zu\n%s", n, w.size(), log.c_str() ); same( std::string( b.data(), n ), w, log, "read other bytes" ); PBT_CHECK( b[ n ] == '#', "read wrote past what there is\n%s", log.c_str() ); ++reads; break; }
		case 3: { if ( pos + size > m.size() ) size = (ssize)( m.size() - pos ); log += pbt::fmt( "read %td\n", size ); pbt::describe( g, log ); std::vector<char> b( size + 1, '#' ); PBT_CHECK( file_read( & f, b.data(), size ), "read failed\n%s", log.c_str() ); same( std::string( b.data(), size ), m.substr( pos, size ), log, "read other bytes" ); pos += size; ++reads; break; }
		case 4: { log += pbt::fmt( "seek %zu\n", at ); pbt::describe( g, log ); PBT_CHECK( file_seek( & f, (s64)at ) == (s64)at, "seek\n%s", log.c_str() ); pos = at; break; }
		case 5: { log += "seek to end\n"; PBT_CHECK( file_seek_to_end( & f ) == (s64)m.size(), "seek to end\n%s", log.c_str() ); pos = m.size(); break; }
		case 6: { log += "size\n"; pbt::describe( g, log ); s64 z = file_size( & f ); PBT_CHECK( z == (s64)m.size(), "size %lld of %zu\n%s", (long long)z, m.size(), log.c_str() ); break; }
		}
		if ( ! app ) { s64 t = file_tell( & f ); PBT_CHECK( t == (s64)pos, "position %lld, not %zu\n%s", (long long)t, pos, log.c_str() ); }
		if ( kind != File ) { ssize z = -1; u8* b = file_stream_buf( & f, & z ); PBT_CHECK( z == (ssize)m.size(), "the stream holds %td bytes, not %zu\n%s", z, m.size(), log.c_str() ); same( std::string( (char*)b, z ), m, log, "the stream holds other bytes" ); } else if ( g.coin( 1, 4 ) ) same( get( p ), m, log, "the file holds other bytes" );
	}, 8 );
	PBT_CHECK( file_close( & f ) == EFileError_NONE, "close\n%s", log.c_str() ); if ( kind == File ) same( get( p ), m, log, "the file holds other bytes" ); if ( kind == Fixed ) same( std::string( buf.begin(), buf.end() ), m, log, "the buffer holds other bytes" ); if ( kind == Clone ) same( std::string( buf.begin(), buf.end() ), given, log, "the buffer the stream cloned changed" );
	g.nontrivial = writes > 1 && reads > 0;
}
int main( int argc, char** argv ) {
	char dir[] = "/tmp/pbt-c17-XXXXXX"; if ( ! mkdtemp( dir ) ) return 3; root = dir;
	int rc = run_main( argc, argv, "C17", "builder: more than three operations; scan: a block and text after it; parse: more than eight tokens; files: more than one write and a read", {
		{ "builder", builder, 14000, 120000, 100, 15 }, { "scan", scan, 12000, 200000, 200, 10 }, { "parse", parsed, 9000, 80000, 100, 15 }, { "files", files, 60000, 1500000, 300, 10 } },
		{ "POSIX files; every file lives in a scratch directory below /tmp" } );
	if ( DIR* d = opendir( dir ) ) { while ( dirent* e = readdir( d ) ) if ( e->d_name[ 0 ] != '.' ) unlink( ( root + "/" + e->d_name ).c_str() ); closedir( d ); } rmdir( dir ); return rc;
}

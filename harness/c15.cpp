// Context lifecycle: generated histories of init / set_context / work / reset / deinit over several contexts with
// small generated limits and caller-supplied counting allocators.  The same work must give the same text in every
// context, code held by one context must survive work in the others, and deinit must give back every byte of the
// containers, pools and string arenas (temporary strings belong to the caller's Allocator_Temp).
#include "gencpp.hpp"
using namespace gen;
using pbt::fmt; using pbt::show;

static std::string dump( const std::vector<std::string>& log ) { std::string o; for ( auto& l : log ) o += l + "\n"; return o; }
struct Counting { std::map<char*,size_t> live; long allocs = 0, bad = 0; };
static void* counting_proc( void* d, AllocType t, ssize size, ssize align, void* old, ssize old_size, u64 flags ) {
	Counting& c = *(Counting*)d;
	switch ( t ) {
	case EAllocation_ALLOC: { void* p = nullptr; if ( posix_memalign( &p, (size_t)( align < 8 ? 8 : align ), size ? size : 1 ) ) return nullptr; if ( flags & ALLOCATOR_FLAG_CLEAR_TO_ZERO ) memset( p, 0, size ); c.live[ (char*)p ] = size; c.allocs++; return p; }
	case EAllocation_FREE: { auto it = c.live.find( (char*)old ); if ( it == c.live.end() ) { c.bad++; return nullptr; } c.live.erase( it ); ::free( old ); return nullptr; }
	case EAllocation_RESIZE: return default_resize_align( AllocatorInfo{ counting_proc, d }, old, old_size, size, align );
	default: return nullptr;
	}
}
static bool inside( Counting& c, const void* p ) { auto it = c.live.upper_bound( (char*)p ); if ( it == c.live.begin() ) return false; --it; return (char*)p < it->first + it->second; }

struct Work { int kind; std::string a, b; int n; };
static std::string describe_work( const Work& w ) { static const char* k[] = { "parse a source", "parse a long source", "upfront class", "upfront functions", "format code", "intern strings", "upfront enum and union", "duplicate and append", "rejected input" }; return fmt( "%s (%s, %s, %d)", k[ w.kind ], w.a.c_str(), w.b.c_str(), w.n ); }
static Code g_code;     // what the last work built
static std::string text( Code c ) { return gx::X( code_to_strbuilder( c ) ); }
static std::string run( const Work& w )
{
	Str A = gx::S( w.a ), B = gx::S( w.b ); g_code = Code{};
	switch ( w.kind ) {
	case 0: { std::string s = "#pragma once\nstruct " + w.a + " : public " + w.b + "\n{\n\tint x = 1;\n\tvoid f( int a, char const* b = \"q\" );\n\t~" + w.a + "();\n};\n\nenum class E" + w.b + " : int\n{\n\tOne,\n\tTwo = 2\n};\n\ntemplate< typename T > T " + w.b + "_get( T v );\nnamespace N { int y; }\n"; CodeBody c = parse_global_body( gx::S( s ) ); g_code = c; return text( c ); }
	case 1: { std::string s; for ( int i = 0; i < w.n; ++i ) s += "int " + w.a + std::to_string( i ) + "( char " + w.b + std::to_string( i ) + ", long* p );\ntypedef unsigned int T" + std::to_string( i ) + ";\n"; CodeBody c = parse_global_body( gx::S( s ) ); g_code = c; return text( c ); }
	case 2: { CodeBody b = def_body( CT_Class_Body ); for ( int i = 0; i < w.n % 7 + 1; ++i ) { std::string n = w.b + std::to_string( i ); body_append( b, def_variable( t_int, gx::S( n ) ) ); body_append( b, fmt_newline ); } body_append( b, access_public ); CodeClass c = def_class( A, { b } ); g_code = c; return text( c ); }
	case 3: { std::string DEF = w.b + "_DEF"; CodeParams p = def_param( t_int, A ); params_append( p, def_param( t_char, B ) ); CodeFn c = def_function( A, { p, t_void } ); g_code = c; return text( c ) + text( def_define( gx::S( DEF ), MT_Expression, { {}, A } ) ) + text( def_comment( A ) ) + text( def_include( B ) ); }
	case 4: { std::string s; Code c = untyped_str( token_fmt( "name", A, "value", B, "struct <name> { int <value>; <name>* <value>_; };" ) ); s += text( c ); Code d = code_fmt( "name", B, "#pragma <name>\n" ); s += text( d ); g_code = c; return s; }
	case 5: { std::string s; for ( int i = 0; i < w.n; ++i ) { std::string n = w.a + std::string( i * 3 % 50, 'z' ) + w.b + std::to_string( i % 40 ); StrCached c = cache_str( gx::S( n ) ); StrCached d = cache_str( gx::S( n ) ); if ( ( c.Ptr == d.Ptr ) != ( n.size() <= get_context()->Max_StrCacheLength ) ) s += "!"; s += gx::X( c ); } return s; }
	case 6: { std::string body = w.a + " = 1,\n" + w.b + "_2\n"; CodeEnum e = def_enum( A, { def_enum_body( 1, untyped_str( gx::S( body ) ) ), t_int } ); CodeNS ns = def_namespace( B, def_namespace_body( 1, e ) ); g_code = ns; return text( ns ); }
	case 7: { CodeBody c = parse_global_body( txt( "int a;\nint b();\n" ) ); CodeBody d = def_body( CT_Global_Body ); body_append( d, code_duplicate( c->Front ) ); body_append( d, def_type( A ) ); body_append( d, c ); g_code = d; return text( d ) + fmt( "%d", d->NumEntries ); }
	case 8: { std::string s = "struct " + w.a + " { int"; Code c = parse_struct( gx::S( s ) ); Code d = def_namespace( A, CodeBody{} ); CodeBody e = parse_global_body( gx::S( "int " + w.b + ";" ) ); return fmt( "%d %d ", code_is_valid( c ), code_is_valid( d ) ) + text( e ); }
	}
	return "";
}
static Work mk_work( pbt::Gen& g ) { Work w; w.kind = (int)g.draw( 9 ); w.a = "A" + g.str( "abcde", 0, 5 ); w.b = "b" + g.str( "xyz", 0, 4 ); w.n = (int)( w.kind == 1 ? g.range( 1, g.coin( 1, 4 ) ? 90 : 12 ) : g.range( 0, 60 ) ); return w; }

struct Held { Code c; std::string want; };
struct Ctx { Context c; Counting cnt[ 4 ]; bool own[ 4 ]; std::vector<Held> held; int id; std::string cfg; };

void case_( pbt::Gen& g )
{
	std::vector<std::string> log; std::map<std::string,std::string> want;
	std::vector<Work> works; int nw = (int)g.range( 1, 6 ); for ( int i = 0; i < nw; ++i ) works.push_back( mk_work( g ) );
	{ // reference: a fresh default-like context per case, one work after the other
		for ( auto& w : works ) { Context ref = {}; ref.CodePool_NumBlocks = 2048; ref.InitSize_LexerTokens = 4096; ref.InitSize_Fallback_Allocator_Bucket_Size = 2 << 20; ref.InitSize_BuilderBuffer = 1024; init( & ref ); want[ describe_work( w ) ] = run( w ); gen::deinit( & ref ); PBT_CHECK( get_context() == nullptr, "a context is current after the only one was released" ); }
	}
	std::vector<Ctx*> stack; Ctx* cur = nullptr; int made = 0, resets = 0, switches = 0, ran = 0; bool multi = false;
	struct Free { std::vector<Ctx*>& s; ~Free() { for ( auto* c : s ) delete c; } } fr{ stack };
	auto check_held = [&]( Ctx* x, const char* op ) { for ( auto& h : x->held ) { std::string t = text( h.c ); PBT_CHECK( t == h.want, "after %s: code held by context %d serializes to\n%s\nexpected\n%s", op, x->id, t.c_str(), h.want.c_str() ); } };
	auto do_init = [&]() {
		Ctx* x = new Ctx; x->c = Context{}; x->id = made++; x->c.CodePool_NumBlocks = (u32)g.pick( std::vector<int>{ 2, 3, 8, 64, 1000 } ); x->c.SizePer_StringArena = (u32)g.pick( std::vector<int>{ 64, 300, 4000, 1 << 16 } ); x->c.InitSize_Fallback_Allocator_Bucket_Size = (u32)g.pick( std::vector<int>{ 1 << 12, 1 << 14, 1 << 17, 1 << 20 } );
		x->c.InitSize_CodePoolsArray = (u32)g.range( 1, 4 ); x->c.InitSize_StringArenasArray = (u32)g.range( 1, 4 ); x->c.InitSize_LexerTokens = (u32)g.pick( std::vector<int>{ 1, 8, 64, 4096 } ); x->c.InitSize_BuilderBuffer = 512; x->c.Max_StrCacheLength = (u32)g.pick( std::vector<int>{ 0, 40, 4000 } ); x->c.Max_CommentLineLength = (u32)g.pick( std::vector<int>{ 0, 0, 200 } );
		AllocatorInfo* al[] = { & x->c.Allocator_DyanmicContainers, & x->c.Allocator_Pool, & x->c.Allocator_StrCache, & x->c.Allocator_Temp };
		std::string s; for ( int i = 0; i < 4; ++i ) { x->own[ i ] = g.coin(); if ( x->own[ i ] ) *al[ i ] = AllocatorInfo{ counting_proc, & x->cnt[ i ] }; s += x->own[ i ] ? "C" : "-"; }
		x->cfg = fmt( "init context %d: pool blocks %u, string arena %u, bucket %u, tokens %u, cache limit %u, own allocators %s", x->id, x->c.CodePool_NumBlocks, x->c.SizePer_StringArena, x->c.InitSize_Fallback_Allocator_Bucket_Size, x->c.InitSize_LexerTokens, x->c.Max_StrCacheLength, s.c_str() );
		log.push_back( x->cfg ); pbt::describe( g, dump( log ) ); stack.push_back( x ); init( & x->c ); cur = x; PBT_CHECK( get_context() == & x->c, "init does not make its context current" ); multi |= stack.size() > 1;
		if ( x->own[ 1 ] ) { Code c = make_code(); PBT_CHECK( inside( x->cnt[ 1 ], c.ast ), "the AST pool does not use the context's pool allocator" ); }
		if ( x->own[ 2 ] ) { PBT_CHECK( inside( x->cnt[ 2 ], cache_str( txt( "alloc probe" ) ).Ptr ), "interned strings do not use the context's string allocator" ); }
	};
	do_init();
	int steps = g.many( 1, 6 + g.size / 3, [&]( int ) {
		switch ( g.weighted( { 10, 2, 3, 2, 2 } ) ) {
		case 0: {
			Work& w = works[ g.draw( works.size() ) ]; log.push_back( fmt( "context %d: ", cur->id ) + describe_work( w ) ); pbt::describe( g, dump( log ) );
			std::string r = run( w ); ++ran; PBT_CHECK( r == want[ describe_work( w ) ], "context %d gives\n%s\na fresh context gives\n%s", cur->id, r.c_str(), want[ describe_work( w ) ].c_str() );
			if ( g_code.ast ) { std::string t = text( g_code ); cur->held.push_back( { g_code, t } ); }
		} break;
		case 1: if ( stack.size() < 4 ) do_init(); break;
		case 2: { if ( stack.size() < 2 ) return; Ctx* x = stack[ g.draw( stack.size() ) ]; log.push_back( fmt( "set_context %d", x->id ) ); pbt::describe( g, dump( log ) ); set_context( & x->c ); PBT_CHECK( get_context() == & x->c, "set_context" ); cur = x; ++switches; check_held( x, "set_context" ); } break;
		case 3: { size_t i = stack.size() == 1 ? 0 : 1 + g.draw( stack.size() - 1 ); Ctx* x = stack[ i ]; log.push_back( fmt( "reset %d", x->id ) ); pbt::describe( g, dump( log ) ); gen::reset( & x->c ); x->held.clear(); ++resets; PBT_CHECK( get_context() == & cur->c, "reset changed the current context" ); PBT_CHECK( lookup_macro( txt( "enum_underlying" ) ), "reset lost the built-in macro" ); } break;
		case 4: { // release the newest
			Ctx* x = stack.back(); log.push_back( fmt( "deinit %d", x->id ) ); pbt::describe( g, dump( log ) );
			gen::deinit( & x->c ); Context zero = {}; PBT_CHECK( memcmp( & zero, & x->c, sizeof zero ) == 0, "deinit leaves the context filled in" );
			for ( int i = 0; i < 4; ++i ) PBT_CHECK( ( i == 3 || x->cnt[ i ].live.empty() ) && x->cnt[ i ].bad == 0, "deinit: allocator %d still holds %zu blocks (%ld bad frees)", i, x->cnt[ i ].live.size(), x->cnt[ i ].bad );
			stack.pop_back(); if ( cur == x ) { PBT_CHECK( get_context() == nullptr, "a released context stays current" ); cur = nullptr; } else PBT_CHECK( get_context() == & cur->c, "deinit of another context changed the current one" );
			delete x;
			if ( stack.empty() ) do_init(); else if ( ! cur ) { cur = stack[ g.draw( stack.size() ) ]; set_context( & cur->c ); log.push_back( fmt( "set_context %d", cur->id ) ); }
		} break;
		}
	}, 14 );
	for ( auto* x : stack ) { set_context( & x->c ); check_held( x, "the whole history" ); }
	while ( stack.size() ) { Ctx* x = stack.back(); log.push_back( fmt( "deinit %d", x->id ) ); pbt::describe( g, dump( log ) ); gen::deinit( & x->c ); for ( int i = 0; i < 4; ++i ) PBT_CHECK( ( i == 3 || x->cnt[ i ].live.empty() ) && x->cnt[ i ].bad == 0, "deinit: allocator %d still holds %zu blocks (%ld bad frees)", i, x->cnt[ i ].live.size(), x->cnt[ i ].bad ); stack.pop_back(); delete x; if ( stack.size() ) set_context( & stack.back()->c ); }
	g.nontrivial = ran >= 2 && ( multi || resets || switches ); if ( multi ) g.label( "several contexts at once" ); if ( resets ) g.label( "reset" ); if ( switches ) g.label( "switched" );
}

int main( int argc, char** argv )
{
	pbt::Engine e; e.cfg.property = "C15";
	e.cfg.rule = "at least two pieces of work ran and the history resets a context, switches between contexts or keeps several alive. Distinct = distinct history.";
	e.cfg.assumptions = { "contexts are released newest first; the first context is reset only while it is the only one (the library documents that it must outlive the others)" };
	e.suites.push_back( { "lifecycle", case_, 10000, 150000, 40 } );
	return e.main( argc, argv );
}

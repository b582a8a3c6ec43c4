// C24 - the methods, overloads and conversions of the C++ interface do what the functions they stand for do.
// Two objects are made alike and taken through the same random history, one by functions, one by the C++ forms;
// what is returned and what they hold has to stay the same. (Serializing methods: C21. Array's and HashTable's: C11.)
#include "src_main.hpp"
#include "mac.hpp"
#include "zoo.hpp"
#include "all.hpp"
static std::string log_; static pbt::Gen* G; static int ops_;
static void note( const std::string& s ) { log_ += s + "\n"; ++ops_; pbt::describe( *G, log_ ); }
#define SAME( a, b ) do { auto a_ = ( a ); auto b_ = ( b ); PBT_CHECK( a_ == b_, "%s gives %s, %s gives %s\n%s", #a, str_of( a_ ).c_str(), #b, str_of( b_ ).c_str(), log_.c_str() ); } while ( 0 )
static std::string str_of( const std::string& s ) { return "\"" + pbt::show( s ) + "\""; }
template<class T> static std::string str_of( T v ) { return std::to_string( (long long)v ); }
static void start( pbt::Gen& g ) { G = &g; log_.clear(); ops_ = 0; }

// ---- Str and StrBuilder
static Arena text_mem; static AllocatorInfo mem() { return arena_allocator_info( & text_mem ); }
static std::string text( pbt::Gen& g ) { return g.coin( 1, 6 ) ? std::string( g.draw( 300 ), (char)( 'a' + g.draw( 3 ) ) ) : g.str( "ab \t\n", 0, 9 ); }
static void same_str( StrBuilder f, StrBuilder m ) {
	SAME( gx::X( f ), gx::X( m ) ); SAME( strbuilder_length( f ), m.length() ); SAME( strbuilder_capacity( f ), m.capacity() ); SAME( strbuilder_avail_space( f ), m.avail_space() );
	SAME( gx::X( strbuilder_to_str( f ) ), gx::X( m.to_str() ) ); SAME( gx::X( (Str)m ), gx::X( f ) ); SAME( m.get_header().Length, strbuilder_length( m ) ); SAME( m.get_header().Capacity, strbuilder_get_header( f )->Capacity );
	SAME( m.get_header().Allocator.Proc == strbuilder_get_header( f )->Allocator.Proc, true ); SAME( (char*)m == m.Data, true ); { StrBuilder z; z.Data = nullptr; SAME( z == nullptr, true ); SAME( z != nullptr, false ); SAME( nullptr == z, true ); SAME( nullptr != z, false ); } SAME( m == nullptr, false ); SAME( m != nullptr, true ); SAME( nullptr == m, false ); SAME( nullptr != m, true );
	std::string it; for ( char c : m ) it += c; SAME( it, gx::X( f ) ); SAME( begin( m ) == strbuilder_begin( m ), true ); SAME( end( m ) == strbuilder_end( m ), true ); SAME( m.begin() == strbuilder_begin( m ), true ); SAME( m.end() == strbuilder_end( m ), true );
	SAME( (char const*)next( m, m.Data ) == strbuilder_next( m, m.Data ), true ); if ( strbuilder_length( m ) ) { SAME( m.back() == strbuilder_back( m ), true ); SAME( (char const*)str_back( strbuilder_to_str( m ) ) == m.back(), true ); ssize k = strbuilder_length( m ) / 2; SAME( m[ k ], f.Data[ k ] ); }
}
static void strings( pbt::Gen& g ) {
	start( g ); static std::vector<char> room( 4 << 20 ); text_mem = arena_init_from_memory( room.data(), (ssize)room.size() ); StrBuilder f, m; std::string t = text( g );
	switch ( g.draw( 5 ) ) {
	case 0: note( "make from c_str " + pbt::show( t ) ); f = strbuilder_make_c_str( mem(), t.c_str() ); m = StrBuilder::make( mem(), t.c_str() ); break;
	case 1: note( "make from Str " + pbt::show( t ) ); f = strbuilder_make_str( mem(), gx::S( t ) ); m = StrBuilder::make( mem(), gx::S( t ) ); break;
	case 2: { ssize n = (ssize)g.draw( 200 ); note( pbt::fmt( "make_reserve %ld", (long)n ) ); f = strbuilder_make_reserve( mem(), n ); m = StrBuilder::make_reserve( mem(), n ); break; }
	case 3: { ssize n = (ssize)g.draw( t.size() + 1 ); note( pbt::fmt( "make_length %ld of ", (long)n ) + pbt::show( t ) ); f = strbuilder_make_length( mem(), t.c_str(), n ); m = StrBuilder::make_length( mem(), t.c_str(), n ); break; }
	default: { std::vector<std::string> p; int n = 1 + (int)g.draw( 4 ); for ( int i = 0; i < n; ++i ) p.push_back( text( g ) ); std::vector<char const*> q; for ( auto& s : p ) q.push_back( s.c_str() ); std::string glue = g.pick( { "", ", ", "ab" } ); note( pbt::fmt( "join %d with ", n ) + glue );
		f = strbuilder_join( mem(), q.data(), n, glue.c_str() ); m = StrBuilder::join( mem(), q.data(), n, glue.c_str() ); break; }
	}
	same_str( f, m ); usize gf = g.draw( 100000 ); SAME( strbuilder_grow_formula( gf ), StrBuilder::grow_formula( gf ) );
	g.many( 0, 20, [&]( int ) {
		std::string t = g.coin( 1, 4 ) ? gx::X( f ).substr( 0, g.draw( 6 ) ) : text( g ); Str s = gx::S( t ); StrBuilder o = strbuilder_make_str( mem(), s ); std::string q = pbt::show( t );
		switch ( g.draw( 24 ) ) {
		case 0: note( "append char" ); SAME( strbuilder_append_char( & f, 'x' ), m.append( 'x' ) ); break;
		case 1: note( "append c_str " + q ); SAME( strbuilder_append_c_str( & f, t.c_str() ), m.append( t.c_str() ) ); break;
		case 2: { ssize n = (ssize)g.draw( t.size() + 1 ); note( pbt::fmt( "append %ld of ", (long)n ) + q ); SAME( strbuilder_append_c_str_len( & f, t.c_str(), n ), m.append( t.c_str(), n ) ); break; }
		case 3: note( "append Str " + q ); SAME( strbuilder_append_str( & f, s ), m.append( s ) ); break;
		case 4: note( "append StrBuilder " + q ); SAME( strbuilder_append_string( & f, o ), m.append( o ) ); break;
		case 5: { int v = (int)g.range( -99999, 99999 ); note( pbt::fmt( "append_fmt %d ", v ) + q ); SAME( strbuilder_append_fmt( & f, "<%d|%s|%S>", v, t.c_str(), s ), m.append_fmt( "<%d|%s|%S>", v, t.c_str(), s ) ); break; }
		case 6: { ssize n = (ssize)g.draw( 600 ); note( pbt::fmt( "make_space_for %ld", (long)n ) ); SAME( strbuilder_make_space_for( & f, f.Data, n ), m.make_space_for( m.Data, n ) ); break; }
		case 7: note( "contains Str " + q ); SAME( strbuilder_contains_str( f, s ), m.contains( s ) ); break;
		case 8: note( "contains StrBuilder " + q ); SAME( strbuilder_contains_string( f, o ), m.contains( o ) ); break;
		case 9: note( "starts_with Str " + q ); SAME( !! strbuilder_starts_with_str( f, s ), !! m.starts_with( s ) ); break;
		case 10: note( "starts_with StrBuilder " + q ); SAME( !! strbuilder_starts_with_string( f, o ), !! m.starts_with( o ) ); break;
		case 11: note( "is_equal" ); SAME( strbuilder_are_equal( f, o ), m.is_equal( o ) ); SAME( strbuilder_are_equal_str( f, s ), m.is_equal( s ) ); SAME( m.is_equal( f ), true ); break;
		case 12: note( "clear" ); strbuilder_clear( f ); m.clear(); break;
		case 13: note( "duplicate" ); f = strbuilder_duplicate( f, mem() ); m = m.duplicate( mem() ); break;
		case 14: if ( strbuilder_length( f ) ) { note( "trim" ); const char* c = g.pick( { "a", "ab", " \t", "\n" } ); strbuilder_trim( f, c ); m.trim( c ); } break;
		case 15: if ( strbuilder_length( f ) ) { note( "trim_space" ); strbuilder_trim_space( f ); m.trim_space(); } break;
		case 16: if ( strbuilder_length( f ) ) { note( "strip_space" ); strbuilder_strip_space( f ); m.strip_space(); } break;
		case 17: { note( "visualize_whitespace" ); SAME( gx::X( strbuilder_visualize_whitespace( f ) ), gx::X( m.visualize_whitespace() ) ); break; }
		case 18: { note( "fmt " + q ); char b1[ 4096 ], b2[ 4096 ]; f = strbuilder_fmt( mem(), b1, sizeof b1, "%s.%d", t.c_str(), (int)t.size() ); m = StrBuilder::fmt( mem(), b2, sizeof b2, "%s.%d", t.c_str(), (int)t.size() ); break; }
		case 19: { note( "fmt_buf " + q ); f = strbuilder_fmt_buf( mem(), "%s.%S", t.c_str(), s ); m = StrBuilder::fmt_buf( mem(), "%s.%S", t.c_str(), s ); break; }
		case 20: { note( "the methods of Str " + q ); Str a = strbuilder_to_str( f ); SAME( a.is_equal( s ), str_are_equal( a, s ) ); SAME( a.contains( s ), str_contains( a, s ) ); SAME( !! a.starts_with( s ), !! str_starts_with( a, s ) ); SAME( gx::X( a.duplicate( mem() ) ), gx::X( str_duplicate( a, mem() ) ) );
			SAME( gx::X( a.visualize_whitespace( mem() ) ), gx::X( str_visualize_whitespace( a, mem() ) ) ); SAME( (char const*)a == a.Ptr, true ); SAME( begin( a ) == str_begin( a ), true ); SAME( end( a ) == str_end( a ), true ); SAME( next( a, a.Ptr ) == str_next( a, a.Ptr ), true );
			if ( a.Len ) { SAME( a.back() == str_back( a ), true ); SAME( & a[ a.Len - 1 ] == str_back( a ), true ); } break; }
#ifndef GX_NO_STRBUILDER_OVERLOADS
		case 21: { note( "the overloads, append " + q ); ssize n = (ssize)g.draw( t.size() + 1 ); switch ( g.draw( 6 ) ) {
			case 0: SAME( strbuilder_append_char( & f, 'y' ), append( m, 'y' ) ); break;
			case 1: SAME( strbuilder_append_c_str( & f, t.c_str() ), append( m, t.c_str() ) ); break;
			case 2: SAME( strbuilder_append_c_str_len( & f, t.c_str(), n ), append( m, t.c_str(), n ) ); break;
			case 3: SAME( strbuilder_append_str( & f, s ), append( m, s ) ); break;
			case 4: SAME( strbuilder_append_string( & f, o ), append( m, o ) ); break;
			case 5: SAME( strbuilder_append_fmt( & f, "%d/%S", (int)n, s ), append_fmt( m, "%d/%S", (int)n, s ) ); break; } break; }
		case 22: { note( "the overloads make_space_for, back, clear" ); ssize n = (ssize)g.draw( 600 ); SAME( strbuilder_make_space_for( & f, f.Data, n ), make_space_for( m, m.Data, n ) ); if ( strbuilder_length( m ) ) SAME( & back( m ) == strbuilder_back( m ), true ); if ( g.coin() ) { strbuilder_clear( f ); clear( m ); } break; }
#endif
		default: if ( g.coin( 1, 3 ) ) { note( "free" ); strbuilder_free( & f ); if ( g.coin() ) m.free(); else
#ifndef GX_NO_STRBUILDER_OVERLOADS
			free( m );
#else
			m.free();
#endif
			SAME( f == nullptr, m == nullptr ); f = strbuilder_make_str( mem(), s ); m = strbuilder_make_str( mem(), s ); } break;
		}
		same_str( f, m );
	}, 8 );
	g.nontrivial = ops_ > 4;
}

// ---- Arena, FixedArena, Pool
struct Buf { char* p; Buf( size_t n ) : p( (char*)aligned_alloc( 4096, ( n + 4095 ) / 4096 * 4096 ) ) { memset( p, 0, n ); } ~Buf() { ::free( p ); } };
static ssize off( void* p, void* base ) { return p ? (char*)p - (char*)base : -1; }
static void same_arena( Arena& f, Arena& m ) {
	SAME( f.TotalUsed, m.TotalUsed ); SAME( f.TotalSize, m.TotalSize ); SAME( f.TempCount, m.TempCount ); m.check(); check( m );
	for ( ssize al : { 1, 8, 64 } ) { if ( al > 16 && f.Backing.Proc ) continue; // two heap blocks may lie differently
		 SAME( arena_size_remaining( & f, al ), m.size_remaining( al ) ); SAME( arena_size_remaining( & f, al ), size_remaining( m, al ) ); SAME( arena_alignment_of( & f, al ), m.alignment_of( al ) ); SAME( arena_alignment_of( & f, al ), alignment_of( m, al ) ); }
	SAME( (AllocatorInfo( m )).Data == (void*)& m, true ); SAME( (AllocatorInfo( m )).Proc == arena_allocator_info( & m ).Proc, true ); SAME( allocator_info( m ).Data == (void*)& m, true ); SAME( allocator_info( m ).Proc == Arena::allocator_proc || allocator_info( m ).Proc == arena_allocator_proc, true );
}
static void arenas( pbt::Gen& g ) {
	start( g ); ssize size = 64 + (ssize)g.draw( 4000 ); Buf b1( size ), b2( size ); Arena f, m; bool backed = g.coin( 1, 3 ); AllocatorInfo hp = heap();
	if ( backed ) { note( pbt::fmt( "init_from_allocator %ld", (long)size ) ); f = arena_init_from_allocator( hp, size ); m = Arena::init_from_allocator( hp, size ); }
	else { note( pbt::fmt( "init_from_memory %ld", (long)size ) ); f = arena_init_from_memory( b1.p, size ); m = Arena::init_from_memory( b2.p, size ); }
	same_arena( f, m );
	if ( backed ) SAME( f.Backing.Proc == m.Backing.Proc && f.Backing.Data == m.Backing.Data, true ); else SAME( off( f.PhysicalStart, b1.p ) == off( m.PhysicalStart, b2.p ), true );
	g.many( 0, 16, [&]( int ) {
		switch ( g.weighted( { 6, 1, 1 } ) ) {
		case 0: { ssize n = 1 + (ssize)g.draw( 200 ), al = g.pick( std::vector<ssize>{ 1, 4, 8, 16, 64 } ); if ( backed && al > 16 ) al = 16; if ( arena_size_remaining( & f, al ) < n + al ) break; note( pbt::fmt( "alloc %ld aligned %ld", (long)n, (long)al ) ); AllocatorInfo af = arena_allocator_info( & f ), am = g.coin() ? AllocatorInfo( m ) : allocator_info( m );
			void *pf, *pm; if ( g.coin() ) { pf = alloc_align( af, n, al ); pm = alloc_align( am, n, al ); } else { pf = arena_allocator_proc( & f, EAllocation_ALLOC, n, al, nullptr, 0, 0 ); pm = Arena::allocator_proc( & m, EAllocation_ALLOC, n, al, nullptr, 0, 0 ); }
			if ( ! backed ) SAME( off( pf, b1.p ), off( pm, b2.p ) ); else SAME( off( pf, f.PhysicalStart ), off( pm, m.PhysicalStart ) ); break; }
		case 1: note( "free all" ); free_all( arena_allocator_info( & f ) ); free_all( m ); break;
		case 2: if ( backed ) { ssize n = 16 + (ssize)g.draw( 200 ); note( pbt::fmt( "init_sub %ld", (long)n ) ); Arena sf = arena_init_sub( & f, n ), sm = g.coin() ? Arena::init_sub( m, n ) : init_sub( m, n ); same_arena( sf, sm ); SAME( sm.PhysicalStart != nullptr, true );
			SAME( sf.Backing.Data == sm.Backing.Data, true ); if ( g.coin() && n > 32 ) { alloc( arena_allocator_info( & sf ), 8 ); alloc( sm, 8 ); same_arena( sf, sm ); } arena_free( & sf ); sm.free(); } break;
		}
		same_arena( f, m );
	}, 6 );
	if ( backed ) { note( "free" ); arena_free( & f ); if ( g.coin() ) m.free(); else free( m ); SAME( f.PhysicalStart == nullptr, m.PhysicalStart == nullptr ); }
	g.nontrivial = ops_ > 4;
}
static void fixed( pbt::Gen& g ) {
	start( g ); note( "init" ); auto* f = new FixedArena_1KB; fixed_arena_init( f );
#ifndef GX_NO_FIXED_ARENA
	auto* m = new FixedArena_1KB( FixedArena_1KB::init() ); if ( m->arena.PhysicalStart != & m->memory[ 0 ] ) m->arena.PhysicalStart = & m->memory[ 0 ]; // a copy, where the compiler makes one, keeps no self-reference
#else
	auto* m = new FixedArena_1KB; fixed_arena_init( m );
#endif
	g.many( 0, 12, [&]( int ) {
		ssize n = 1 + (ssize)g.draw( 300 ), al = g.pick( std::vector<ssize>{ 1, 4, 8, 16 } ); if ( f->arena.TotalSize - f->arena.TotalUsed < n + 2 * al ) return; note( pbt::fmt( "alloc %ld aligned %ld", (long)n, (long)al ) ); AllocatorInfo am = *m;
#ifndef GX_NO_FIXED_ARENA
		if ( g.coin() ) am = allocator_info( *m );
#endif
		void* pf = alloc_align( fixed_arena_allocator_info( f ), n, al ); void* pm = alloc_align( am, n, al ); SAME( !! pf, !! pm ); SAME( f->arena.TotalUsed, m->arena.TotalUsed );
		if ( pm ) SAME( (char*)pm >= m->memory && (char*)pm + n <= m->memory + sizeof m->memory, true );
#ifndef GX_NO_FIXED_ARENA
		SAME( fixed_arena_size_remaining( f, al ), m->size_remaining( al ) ); SAME( fixed_arena_size_remaining( f, al ), size_remaining( *m, al ) );
#endif
	}, 5 );
	delete f; delete m; g.nontrivial = ops_ > 3;
}
static void pools( pbt::Gen& g ) {
	start( g ); ssize num = 1 + (ssize)g.draw( 12 ), bs = 8 * ( 1 + (ssize)g.draw( 12 ) ), al = g.pick( std::vector<ssize>{ 8, 16, 32, 64 } ); Pool f, m; bool d = g.coin();
	note( pbt::fmt( "init %ld blocks of %ld aligned %ld", (long)num, (long)bs, d ? -1L : (long)al ) );
	if ( d ) { f = pool_init( heap(), num, bs ); m = Pool::init( heap(), num, bs ); } else { f = pool_init_align( heap(), num, bs, al ); m = Pool::init_align( heap(), num, bs, al ); }
	auto same = [&] { SAME( f.TotalSize, m.TotalSize ); SAME( f.BlockSize, m.BlockSize ); SAME( f.BlockAlign, m.BlockAlign ); SAME( f.NumBlocks, m.NumBlocks ); SAME( off( f.FreeList, f.PhysicalStart ), off( m.FreeList, m.PhysicalStart ) );
		AllocatorInfo a = m, b = allocator_info( m ), w = pool_allocator_info( & m ); SAME( a.Data == w.Data && b.Data == w.Data && a.Proc == w.Proc && b.Proc == w.Proc, true ); }; same();
	std::vector<std::pair<void*, void*>> live;
	g.many( 0, 30, [&]( int ) {
		switch ( g.weighted( { 6, 3, 1 } ) ) {
		case 0: if ( (ssize)live.size() < num ) { note( "alloc" ); AllocatorInfo am = m; ssize ba = d ? GEN_DEFAULT_MEMORY_ALIGNMENT : al; void *pf, *pm; if ( g.coin() ) { pf = alloc_align( pool_allocator_info( & f ), bs, ba ); pm = alloc_align( am, bs, ba ); } else { pf = pool_allocator_proc( & f, EAllocation_ALLOC, bs, ba, nullptr, 0, 0 ); pm = Pool::allocator_proc( & m, EAllocation_ALLOC, bs, ba, nullptr, 0, 0 ); }
			SAME( off( pf, f.PhysicalStart ), off( pm, m.PhysicalStart ) ); live.push_back( { pf, pm } ); } break;
		case 1: if ( live.size() ) { size_t i = g.draw( live.size() ); note( pbt::fmt( "free the %zuth", i ) ); allocator_free( pool_allocator_info( & f ), live[ i ].first ); allocator_free( g.coin() ? AllocatorInfo( m ) : allocator_info( m ), live[ i ].second ); live.erase( live.begin() + i ); } break;
		case 2: note( "clear" ); pool_clear( & f ); if ( g.coin() ) m.clear(); else clear( m ); live.clear(); break;
		}
		same();
	}, 10 );
	note( "free" ); pool_free( & f ); if ( g.coin() ) m.free(); else free( m ); SAME( f.PhysicalStart == nullptr, m.PhysicalStart == nullptr ); g.nontrivial = ops_ > 5;
}

// ---- codes: what every code has
template<class T> static void as( Code c, const char* what ) {
	T t = (T)c; PBT_CHECK( (void*)t.ast == (void*)c.ast, "as a %s it is another code", what ); Code back = (Code)t; PBT_CHECK( back.ast == c.ast && ( t == c ) && ! ( t != c ) && t != nullptr && ! ( t == nullptr ) && (bool)t, "a %s and the code it was made from are told apart", what );
	T u; u.ast = nullptr; PBT_CHECK( u == nullptr && ! ( u != nullptr ) && ! (bool)u && u != c && ! ( u == c ), "no %s passes for one", what );
	PBT_CHECK( gx::X( t.duplicate().type_str() ) == gx::X( code_type_str( c ) ), "a duplicate of the %s is of another kind", what );
	PBT_CHECK( t.is_body() == code_is_body( c ) && t.is_valid() == code_is_valid( c ), "the %s says otherwise of itself than code_is_body and code_is_valid", what );
	if ( c->Type != CT_Preprocess_Define && c->Type != CT_Parameters_Define ) { PBT_CHECK( gx::X( t.debug_str() ) == gx::X( code_debug_str( c ) ), "the %s describes itself otherwise", what ); bool e = code_is_equal( c, c ); PBT_CHECK( t.is_equal( c ) == e, "the %s is %sequal to itself, is_equal says otherwise", what, e ? "" : "un" ); }
	if ( ! c->Parent ) { T v; v.ast = nullptr; v = c; PBT_CHECK( (void*)v.ast == (void*)c.ast, "assigning a code without a parent to a %s gives another code", what ); }
}
#define KINDS( X ) X( CodeAttributes ) X( CodeComment ) X( CodeClass ) X( CodeConstructor ) X( CodeDefine ) X( CodeDefineParams ) X( CodeDestructor ) X( CodeExec ) X( CodeEnum ) X( CodeExtern ) X( CodeInclude ) X( CodeFriend ) X( CodeFn ) X( CodeModule ) X( CodeNS ) X( CodeOperator ) X( CodeOpCast ) X( CodeParams ) X( CodePragma ) X( CodePreprocessCond ) X( CodeSpecifiers ) X( CodeStruct ) X( CodeTemplate ) X( CodeTypename ) X( CodeTypedef ) X( CodeUnion ) X( CodeUsing ) X( CodeVar ) X( CodeBody )
static void casters() {
#define X( T ) { T t = InvalidCode; PBT_CHECK( (void*)t.ast == (void*)Code_Invalid.ast, "InvalidCode as a " #T " is not Code_Invalid" ); T n = NullCode; PBT_CHECK( n.ast == nullptr, "NullCode as a " #T " is a code" ); }
	KINDS( X )
#undef X
	Code i = InvalidCode, n = NullCode; PBT_CHECK( i.ast == Code_Invalid.ast && n.ast == nullptr, "InvalidCode or NullCode is some other code" );
}
static void one( Code c ) {
	switch ( c->Type ) {
	case CT_PlatformAttributes: as<CodeAttributes>( c, "attributes" ); break; case CT_Comment: as<CodeComment>( c, "comment" ); break;
	case CT_Class: case CT_Class_Fwd: as<CodeClass>( c, "class" ); break; case CT_Struct: case CT_Struct_Fwd: as<CodeStruct>( c, "struct" ); break; case CT_Union: case CT_Union_Fwd: as<CodeUnion>( c, "union" ); break;
	case CT_Constructor: case CT_Constructor_Fwd: as<CodeConstructor>( c, "constructor" ); break; case CT_Destructor: case CT_Destructor_Fwd: as<CodeDestructor>( c, "destructor" ); break;
	case CT_Preprocess_Define: as<CodeDefine>( c, "define" ); break; case CT_Parameters_Define: as<CodeDefineParams>( c, "define's parameters" ); break; case CT_Parameters: as<CodeParams>( c, "parameters" ); break;
	case CT_Execution: as<CodeExec>( c, "execution" ); break; case CT_Enum: case CT_Enum_Fwd: case CT_Enum_Class: case CT_Enum_Class_Fwd: as<CodeEnum>( c, "enum" ); break;
	case CT_Extern_Linkage: as<CodeExtern>( c, "extern linkage" ); break; case CT_Preprocess_Include: as<CodeInclude>( c, "include" ); break; case CT_Friend: as<CodeFriend>( c, "friend" ); break;
	case CT_Function: case CT_Function_Fwd: as<CodeFn>( c, "function" ); break; case CT_Module: as<CodeModule>( c, "module" ); break; case CT_Namespace: as<CodeNS>( c, "namespace" ); break;
	case CT_Operator: case CT_Operator_Fwd: case CT_Operator_Member: case CT_Operator_Member_Fwd: as<CodeOperator>( c, "operator" ); break; case CT_Operator_Cast: case CT_Operator_Cast_Fwd: as<CodeOpCast>( c, "conversion" ); break;
	case CT_Preprocess_Pragma: as<CodePragma>( c, "pragma" ); break; case CT_Preprocess_If: case CT_Preprocess_IfDef: case CT_Preprocess_IfNotDef: case CT_Preprocess_ElIf: case CT_Preprocess_Else: case CT_Preprocess_EndIf: as<CodePreprocessCond>( c, "condition" ); break;
	case CT_Specifiers: as<CodeSpecifiers>( c, "specifiers" ); break; case CT_Template: as<CodeTemplate>( c, "template" ); break; case CT_Typename: as<CodeTypename>( c, "typename" ); break; case CT_Typedef: as<CodeTypedef>( c, "typedef" ); break;
	case CT_Using: case CT_Using_Namespace: as<CodeUsing>( c, "using" ); break; case CT_Variable: as<CodeVar>( c, "variable" ); break;
	default: if ( code_is_body( c ) ) as<CodeBody>( c, "body" ); break;
	}
	PBT_CHECK( gx::X( c.type_str() ) == gx::X( code_type_str( c ) ) && c.is_body() == code_is_body( c ) && c.is_valid() == code_is_valid( c ) && ( *c ).ast == c.ast && c.operator->() == c.ast && (bool)c, "Code's own methods say otherwise than the functions" );
	PBT_CHECK( gx::X( to_str( c->Type ) ) == gx::X( codetype_to_str( c->Type ) ) && gx::X( to_keyword_str( c->Type ) ) == gx::X( codetype_to_keyword_str( c->Type ) ), "the overloads name the kind otherwise" );
	if ( code_is_body( c ) ) {
		CodeBody b = (CodeBody)c; PBT_CHECK( c.has_entries() == code_has_entries( c ) && b.has_entries() == code_has_entries( c ), "has_entries" );
		PBT_CHECK( b.begin().ast == begin_CodeBody( b ).ast && b.end().ast == end_CodeBody( b ).ast && begin( b ).ast == b.begin().ast && end( b ).ast == b.end().ast, "the ends of a body" );
		std::vector<AST*> f, m, o; for ( Code e = begin_CodeBody( b ); e != end_CodeBody( b ); e.ast = next_CodeBody( b, e ).ast ) f.push_back( e.ast ); for ( Code e : b ) m.push_back( e.ast ); for ( Code e = begin( b ); e != end( b ); e.ast = next( b, e ).ast ) o.push_back( e.ast );
		PBT_CHECK( f == m && f == o, "a loop over a body of %zu entries gives %zu and %zu", f.size(), m.size(), o.size() );
		for ( u32 i = 0; i < f.size(); ++i ) { Code *x = code_entry( c, i ), *y = c.entry( i ); PBT_CHECK( x && y && x->ast == y->ast && x->ast == f[ i ], "entry %u of %zu", i, f.size() ); }
		long was = gx::failures; bool v = code_validate_body( c ); PBT_CHECK( c.validate_body() == v, "validate_body says otherwise" ); (void)was;
	}
	if ( c->Type == CT_Parameters ) {
		CodeParams p = (CodeParams)c; PBT_CHECK( p.has_entries() == params_has_entries( p ) && has_entries( p ) == params_has_entries( p ), "has_entries" ); std::vector<AST_Params*> f, m, o, i; for ( CodeParams q = begin_CodeParams( p ); q != end_CodeParams( p ); q.ast = next_CodeParams( p, q ).ast ) f.push_back( q.ast ); for ( CodeParams q : p ) m.push_back( q.ast ); for ( CodeParams q = begin( p ); q != end( p ); q.ast = next( p, q ).ast ) o.push_back( q.ast );
		for ( CodeParams q = p; q != nullptr; ++q ) i.push_back( q.ast ); PBT_CHECK( f == m && f == o && f == i && (int)f.size() == ( p->NumEntries ? p->NumEntries : 1 ), "loops over %d parameters give %zu, %zu, %zu and %zu", p->NumEntries, f.size(), m.size(), o.size(), i.size() );
		for ( size_t k = 0; k <= f.size(); ++k ) { AST_Params* w = k < f.size() ? f[ k ] : nullptr; PBT_CHECK( params_get( p, (s32)k ).ast == w && p.get( (s32)k ).ast == w && get( p, (s32)k ).ast == w, "parameter %zu of %zu", k, f.size() ); }
	}
	if ( c->Type == CT_Parameters_Define ) {
		CodeDefineParams p = (CodeDefineParams)c; PBT_CHECK( p.has_entries() == define_params_has_entries( p ) && has_entries( p ) == define_params_has_entries( p ), "has_entries" ); std::vector<AST_DefineParams*> f, m, o; for ( CodeDefineParams q = begin_CodeDefineParams( p ); q.ast; q.ast = next_CodeDefineParams( p, q ).ast ) f.push_back( q.ast );
		for ( CodeDefineParams q = p.begin(); q.ast != p.end().ast; ++q ) m.push_back( q.ast ); for ( CodeDefineParams q : p ) o.push_back( q.ast ); PBT_CHECK( f == m && f == o, "loops over a define's %zu parameters give %zu and %zu", f.size(), m.size(), o.size() );
		for ( size_t k = 0; k <= f.size(); ++k ) { AST_DefineParams* w = k < f.size() ? f[ k ] : nullptr; PBT_CHECK( define_params_get( p, (s32)k ).ast == w && p.get( (s32)k ).ast == w && get( p, (s32)k ).ast == w, "define parameter %zu of %zu", k, f.size() ); }
	}
	if ( c->Type == CT_Specifiers ) {
		CodeSpecifiers s = (CodeSpecifiers)c; std::vector<int> f, m; for ( Specifier* i = begin_CodeSpecifiers( s ); i != end_CodeSpecifiers( s ); i = next_CodeSpecifiers( s, i ) ) f.push_back( *i ); for ( Specifier* i = begin( s ); i != end( s ); i = next( s, *i ) ) m.push_back( *i ); PBT_CHECK( f == m && (int)f.size() == s->NumEntries, "loops over %d specifiers give %zu and %zu", s->NumEntries, f.size(), m.size() );
		for ( int k = 0; k < Spec_NumSpecifiers; ++k ) { Specifier q = (Specifier)k; PBT_CHECK( s.has( q ) == specifiers_has( s, q ) && has( s, q ) == specifiers_has( s, q ) && s.index_of( q ) == specifiers_index_of( s, q ) && index_of( s, q ) == specifiers_index_of( s, q ), "specifier %d", k ); }
	}
}
static void parsed( pbt::Gen& g ) {
	fresh(); casters(); SG sg( g ); with_macros( sg, 3 ); size_t n = sg.macs.size(); D d = sg.file( 4 ); sg.glue( d.s ); std::string text = src::canonical( d.s ); pbt::describe( g, text ); reg_all( sg, n );
	Code c = (Code)parse( text ); std::string facts = src::walk( c ); All all; all.add( c ); std::set<int> kinds; for ( Code x : all.nodes ) { if ( kinds.insert( x->Type ).second ) g.label( gx::X( codetype_to_str( x->Type ) ) ); one( x ); }
	PBT_CHECK( src::walk( c ) == facts, "asking changed it:\n%s\nwas\n%s", src::walk( c ).c_str(), facts.c_str() ); g.nontrivial = all.nodes.size() > 8;
}
static void kinds( pbt::Gen& g ) { fresh(); Code c = zoo( 1 + (int)g.draw( CT_NumTypes - 1 ) ); pbt::describe( g, kind( c ) ); All all; all.add( c ); for ( Code x : all.nodes ) one( x ); g.nontrivial = all.nodes.size() > 1; }
static void names( pbt::Gen& g ) {
	Operator op = (Operator)g.draw( Op_NumOps ); Specifier sp = (Specifier)g.draw( Spec_NumSpecifiers ); CodeType ct = (CodeType)g.draw( CT_NumTypes ); std::string t = g.coin() ? gx::X( spec_to_str( sp ) ) : g.str( "constexpr_inline&*", 0, 12 ); start( g ); note( pbt::fmt( "operator %d, specifier %d, kind %d, name %s", (int)op, (int)sp, (int)ct, t.c_str() ) );
	SAME( gx::X( to_str( op ) ), gx::X( operator_to_str( op ) ) ); SAME( gx::X( to_str( sp ) ), gx::X( spec_to_str( sp ) ) ); SAME( !! is_trailing( sp ), !! spec_is_trailing( sp ) ); SAME( gx::X( to_str( ct ) ), gx::X( codetype_to_str( ct ) ) ); SAME( gx::X( to_keyword_str( ct ) ), gx::X( codetype_to_keyword_str( ct ) ) ); SAME( (int)to_type( gx::S( t ) ), (int)str_to_specifier( gx::S( t ) ) );
	Macro m{ txt( "x" ), MT_Statement, (MacroFlags)g.draw( 64 ) }; SAME( !! is_functional( m ), !! macro_is_functional( m ) ); SAME( !! expects_body( m ), !! macro_expects_body( m ) ); g.nontrivial = true;
}

// ---- codes: growing
static void grow( pbt::Gen& g ) {
	fresh(); start( g );
	switch ( g.draw( 5 ) ) {
	case 0: { // parameters
		CodeParams f = NullCode, m = NullCode; int n = 1 + (int)g.draw( 6 );
		for ( int i = 0; i < n; ++i ) { std::string nm = pbt::fmt( "p%d", i ); const char* ty = g.pick( { "int", "A*", "float const&" } ); note( std::string( "append " ) + ty + " " + nm ); CodeTypename t = parse_type( gx::S( ty ) ); Opts_def_param none{}; CodeParams a = def_param( t, gx::S( nm ), none ), b = def_param( t, gx::S( nm ), none );
			if ( i == 0 ) { f.ast = a.ast; m.ast = b.ast; } else { params_append( f, a ); if ( g.coin() ) m.append( b ); else append( m, b ); } one( (Code)f ); one( (Code)m ); SAME( src::params( f ), src::params( m ) ); } break; }
	case 1: { // specifiers
		CodeSpecifiers f = def_specifier( Spec_Const ), m = def_specifier( Spec_Const );
		g.many( 0, 20, [&]( int ) { Specifier s = (Specifier)( 1 + g.draw( Spec_NumSpecifiers - 1 ) ); if ( g.coin( 2, 3 ) ) { note( "append " + gx::X( spec_to_str( s ) ) ); SAME( specifiers_append( f, s ), g.coin() ? m.append( s ) : append( m, s ) ); } else { if ( f->NumEntries ) s = f->ArrSpecs[ g.draw( f->NumEntries ) ]; note( "remove " + gx::X( spec_to_str( s ) ) ); SAME( specifiers_remove( f, s ), g.coin() ? m.remove( s ) : remove( m, s ) ); }
			SAME( src::specs( f ), src::specs( m ) ); one( (Code)m ); }, 8 ); break; }
	case 2: { // interfaces
		bool cl = g.coin(); const char* s = cl ? "class A { int a; };" : "struct A { int a; };"; if ( g.coin() ) s = cl ? "class A : B { int a; };" : "struct A : B { int a; };"; note( s ); Code f = zoo_front( s ), m = zoo_front( s ); int n = 1 + (int)g.draw( 5 );
		for ( int i = 0; i < n; ++i ) { std::string nm = pbt::fmt( "I%d", i ); note( "add_interface " + nm ); Opts_def_type none{}; CodeTypename a = def_type( gx::S( nm ), none ), b = def_type( gx::S( nm + " " ).Len ? gx::S( nm ) : gx::S( nm ), none ); b = (CodeTypename)code_duplicate( (Code)a );
			if ( cl ) { class_add_interface( (CodeClass)f, a ); CodeClass c = (CodeClass)m; if ( g.coin() ) c.add_interface( b ); else add_interface( c, b ); } else { struct_add_interface( (CodeStruct)f, a ); CodeStruct c = (CodeStruct)m; if ( g.coin() ) c.add_interface( b ); else add_interface( c, b ); }
			SAME( text_of( f ), text_of( m ) ); SAME( src::walk( f ), src::walk( m ) ); } break; }
	case 3: { // bodies
		CodeType bt = g.pick( std::vector<CodeType>{ CT_Global_Body, CT_Namespace_Body, CT_Class_Body, CT_Struct_Body, CT_Function_Body, CT_Export_Body, CT_Extern_Linkage_Body } ); CodeBody f = def_body( bt ), m = def_body( bt ); int n = 1 + (int)g.draw( 6 ); note( kind( (Code)f ) );
		for ( int i = 0; i < n; ++i ) { int k = 1 + (int)g.draw( CT_NumTypes - 1 ); if ( k == CT_Parameters_Define ) continue; Code a = zoo( k ), b = zoo( k ); note( "append " + kind( a ) );
			if ( code_is_body( a ) ) { int w = (int)g.draw( 3 ); body_append_body( f, (CodeBody)a ); if ( w == 0 ) m.append( (CodeBody)b ); else if ( w == 1 ) append( m, (CodeBody)b ); else append( m, b ); }
			else { int w = (int)g.draw( 3 ); if ( w == 2 ) { code_append( (Code)f, a ); ((Code)m).append( b ); } else { body_append( f, a ); if ( w ) m.append( b ); else append( m, b ); } }
			SAME( text_of( (Code)f ), text_of( (Code)m ) ); SAME( f->NumEntries, m->NumEntries ); one( (Code)m ); } break; }
	case 4: { // global codes
		Code f = zoo( 1 + (int)g.draw( CT_NumTypes - 1 ) ), m; m.ast = code_duplicate( f ).ast; note( "set_global " + kind( f ) ); if ( f->Parent ) break; code_set_global( f ); m.set_global(); SAME( f->Parent == Code_Global, m->Parent == Code_Global ); SAME( f->Parent.ast == Code_Global.ast, true ); break; }
	}
	g.nontrivial = ops_ > 2;
}
// bodies, parameters and specifiers made from an array by the overload, and by the function
static void arrays( pbt::Gen& g ) {
	fresh(); start( g ); std::vector<Code> a, b; int n = 1 + (int)g.draw( 6 );
	auto fill = [&]( std::vector<int> ks, const char* what ) { note( what ); for ( int i = 0; i < n; ++i ) { int k = g.pick( ks ); a.push_back( zoo( k ) ); b.push_back( zoo( k ) ); note( kind( a.back() ) ); } };
	long was = gx::failures; auto same = [&]( Code x, Code y ) { SAME( x == Code_Invalid, y == Code_Invalid ); if ( x != Code_Invalid ) { SAME( text_of( x ), text_of( y ) ); SAME( src::walk( x ), src::walk( y ) ); } }; (void)was;
	std::vector<int> common{ CT_Comment, CT_NewLine, CT_Variable, CT_Function, CT_Struct, CT_Enum, CT_Typedef, CT_Using, CT_Untyped, CT_Preprocess_Pragma, CT_Class_Fwd, CT_Union, CT_Template, CT_Class_Body, CT_Parameters, CT_Extern_Linkage, CT_Namespace, CT_Friend };
	switch ( g.draw( 12 ) ) {
	case 0: fill( common, "def_class_body" ); same( def_class_body_arr( n, a.data() ), def_class_body( n, b.data() ) ); break;
	case 1: fill( { CT_Untyped, CT_Comment, CT_NewLine, CT_Variable }, "def_enum_body" ); same( def_enum_body_arr( n, a.data() ), def_enum_body( n, b.data() ) ); break;
	case 2: fill( common, "def_export_body" ); same( def_export_body_arr( n, a.data() ), def_export_body( n, b.data() ) ); break;
	case 3: fill( common, "def_extern_link_body" ); same( def_extern_link_body_arr( n, a.data() ), def_extern_link_body( n, b.data() ) ); break;
	case 4: fill( common, "def_function_body" ); same( def_function_body_arr( n, a.data() ), def_function_body( n, b.data() ) ); break;
	case 5: fill( common, "def_global_body" ); same( def_global_body_arr( n, a.data() ), def_global_body( n, b.data() ) ); break;
	case 6: fill( common, "def_namespace_body" ); same( def_namespace_body_arr( n, a.data() ), def_namespace_body( n, b.data() ) ); break;
	case 7: fill( common, "def_struct_body" ); same( def_struct_body_arr( n, a.data() ), def_struct_body( n, b.data() ) ); break;
	case 8: fill( { CT_Variable, CT_Comment, CT_NewLine, CT_Struct, CT_Function }, "def_union_body" ); same( def_union_body_arr( n, a.data() ), def_union_body( n, b.data() ) ); break;
	case 9: { note( "def_params" ); std::vector<CodeParams> p, q; for ( int i = 0; i < n; ++i ) { std::string nm = pbt::fmt( "p%d", i ); Opts_def_param none{}; for ( auto* v : { &p, &q } ) v->push_back( def_param( parse_type( txt( "u32" ) ), gx::S( nm ), none ) ); } same( def_params_arr( n, p.data() ), def_params( n, q.data() ) ); break; }
	case 10: { note( "def_specifiers" ); std::vector<Specifier> s; for ( int i = 0; i < n; ++i ) s.push_back( (Specifier)( 1 + g.draw( Spec_NumSpecifiers - 1 ) ) ); SAME( src::specs( def_specifiers_arr( n, s.data() ) ), src::specs( def_specifiers( n, s.data() ) ) ); break; }
	case 11: { note( "register_macros" ); std::vector<Macro> m; std::vector<std::string> nm; for ( int i = 0; i < n; ++i ) nm.push_back( pbt::fmt( "MACRO_%d", i ) ); for ( int i = 0; i < n; ++i ) m.push_back( Macro{ gx::S( nm[ i ] ), (MacroType)g.draw( MT_Case_Statement + 1 ), (MacroFlags)g.draw( 64 ) } );
		std::vector<std::string> got; for ( int w = 0; w < 2; ++w ) { fresh(); if ( w ) register_macros( (s32)n, m.data() ); else register_macros_arr( (s32)n, m.data() ); std::string o; for ( auto& s : nm ) { Macro* x = lookup_macro( gx::S( s ) ); o += x ? pbt::fmt( "%.*s:%d:%d ", (int)x->Name.Len, x->Name.Ptr, (int)x->Type, (int)x->Flags ) : "- "; } got.push_back( o ); }
		SAME( got[ 0 ], got[ 1 ] ); break; }
	}
	g.nontrivial = n > 1;
}

// ---- Builder
static std::string dir_;
static std::string file_text( const std::string& p ) { FILE* f = fopen( p.c_str(), "rb" ); if ( ! f ) return "<absent>"; std::string s; char b[ 4096 ]; size_t n; while ( ( n = fread( b, 1, sizeof b, f ) ) > 0 ) s.append( b, n ); fclose( f ); return s; }
static void builders( pbt::Gen& g ) {
	fresh(); start( g ); std::string pf = dir_ + pbt::fmt( "/%d.f", (int)getpid() ), pm = dir_ + pbt::fmt( "/%d.m", (int)getpid() ); struct Rm { std::string a, b; ~Rm() { unlink( a.c_str() ); unlink( b.c_str() ); } } rm{ pf, pm };
	Builder f = builder_open( pf.c_str() ), m = Builder::open( pm.c_str() );
	g.many( 0, 14, [&]( int ) {
		bool member = g.coin(); switch ( g.draw( 3 ) ) {
		case 0: { s32 n = (s32)g.draw( 9 ); note( pbt::fmt( "pad_lines %d %s", n, member ? "method" : "overload" ) ); builder_pad_lines( & f, n ); if ( member ) m.pad_lines( n ); else builder_pad_lines( m, n ); break; }
		case 1: { Code c = zoo( 1 + (int)g.draw( CT_NumTypes - 1 ) ); note( "print " + kind( c ) ); builder_print( & f, c ); if ( member ) m.print( c ); else builder_print( m, c ); break; }
		default: { std::string t = text( g ); int v = (int)g.range( -9999, 9999 ); note( "print_fmt " + pbt::show( t ) ); builder_print_fmt( & f, "%d %s %S\n", v, t.c_str(), gx::S( t ) ); if ( member ) m.print_fmt( "%d %s %S\n", v, t.c_str(), gx::S( t ) ); else builder_print_fmt( m, "%d %s %S\n", v, t.c_str(), gx::S( t ) ); break; }
		}
		SAME( gx::X( f.Buffer ), gx::X( m.Buffer ) );
	}, 6 );
	bool member = g.coin(); note( member ? "write method" : "write overload" ); builder_write( & f ); if ( member ) m.write(); else builder_write( m ); SAME( file_text( pf ), file_text( pm ) ); g.nontrivial = ops_ > 3;
}
int main( int argc, char** argv ) {
	char t[] = "/tmp/pbt_c24_XXXXXX"; if ( ! mkdtemp( t ) ) return 3; dir_ = t; struct Rm { ~Rm() { rmdir( dir_.c_str() ); } } rm;
	int rc = run_main( argc, argv, "C24", "several operations, or a tree of more than 8 codes, were done both ways", {
		{ "strings", strings, 150000, 1500000, 500, 15 }, { "arenas", arenas, 150000, 1500000, 1000, 15 }, { "fixed", fixed, 50000, 400000, 1000, 15 }, { "pools", pools, 150000, 1500000, 1000, 15 },
		{ "names", names, 50000, 200000, 2000, 15 }, { "kinds", kinds, 2000, 10000, 200, 15 }, { "parsed", parsed, 5000, 100000, 100, 20 }, { "grow", grow, 8000, 200000, 100, 15 }, { "arrays", arrays, 8000, 200000, 100, 15 }, { "builders", builders, 5000, 60000, 100, 15 } } );
	return rc;
}

// Allocators (heap, arena, fixed arena, pool, virtual memory) and the raw memory helpers, over generated
// allocation histories: every live block keeps its contents, has the requested size and alignment, lies inside
// its allocator's memory and overlaps no other live block; the accounting matches a model.
#include "gencpp.hpp"
using namespace gen;
using pbt::fmt; using pbt::show;

static std::string dump( const std::vector<std::string>& log ) { std::string o; for ( auto& l : log ) o += l + "\n"; return o; }
struct Block { char* p; size_t n; unsigned char tag; };
static unsigned char pat( unsigned char tag, size_t i ) { return (unsigned char)( tag * 31 + i * 7 + ( i >> 8 ) * 13 ); }
static void paint( Block& b ) { for ( size_t i = 0; i < b.n; ++i ) b.p[ i ] = (char)pat( b.tag, i ); }
static void verify( const std::vector<Block>& live, const char* op ) {
	for ( size_t k = 0; k < live.size(); ++k ) for ( size_t i = 0; i < live[ k ].n; ++i )
		if ( (unsigned char)live[ k ].p[ i ] != pat( live[ k ].tag, i ) ) pbt::fail( "after %s: byte %zu of live block %zu (%zu bytes) changed", op, i, k, live[ k ].n );
}
static void disjoint( const std::vector<Block>& live, const Block& b, const char* op ) {
	for ( size_t k = 0; k < live.size(); ++k ) if ( b.p < live[ k ].p + live[ k ].n && live[ k ].p < b.p + b.n ) pbt::fail( "%s: new block overlaps live block %zu", op, k );
}
static void zeroed( const Block& b, const char* op ) { for ( size_t i = 0; i < b.n; ++i ) if ( b.p[ i ] ) pbt::fail( "%s: byte %zu of a fresh block of %zu is not zero", op, i, b.n ); }

// an allocator that counts, keeps sizes, and hands out exact allocations (so overruns are sanitizer reports)
struct Counting { std::map<void*,size_t> live; long allocs = 0, frees = 0, bad = 0; };
static void* counting_proc( void* d, AllocType t, ssize size, ssize align, void* old, ssize old_size, u64 flags ) {
	Counting& c = *(Counting*)d;
	switch ( t ) {
	case EAllocation_ALLOC: { void* p = nullptr; size_t al = (size_t)( align < 8 ? 8 : align ); if ( posix_memalign( &p, al, size ? size : 1 ) ) return nullptr; if ( flags & ALLOCATOR_FLAG_CLEAR_TO_ZERO ) memset( p, 0, size ); c.live[ p ] = size; c.allocs++; return p; }
	case EAllocation_FREE: { auto it = c.live.find( old ); if ( it == c.live.end() ) { c.bad++; return nullptr; } c.live.erase( it ); c.frees++; ::free( old ); return nullptr; }
	case EAllocation_RESIZE: return default_resize_align( AllocatorInfo{ counting_proc, d }, old, old_size, size, align );
	default: return nullptr;
	}
}

void heap_case( pbt::Gen& g )
{
	std::vector<std::string> log; std::vector<Block> live; unsigned char tag = 1; bool resized = false;
	Counting cnt; bool counted = g.coin( 1, 3 ); AllocatorInfo al = counted ? AllocatorInfo{ counting_proc, & cnt } : heap();
	auto mk = [&]( void* p, size_t n, size_t a, const char* op ) { pbt::describe( g, dump( log ) ); PBT_CHECK( p, "%s returned null", op ); PBT_CHECK( (uintptr_t)p % a == 0, "%s: alignment %zu not respected", op, a ); Block b{ (char*)p, n, tag++ }; disjoint( live, b, op ); zeroed( b, op ); paint( b ); live.push_back( b ); verify( live, op ); };
	int steps = g.many( 1, 8 + g.size, [&]( int ) {
		size_t n = g.coin( 1, 4 ) ? (size_t)g.range( 1, 5000 ) : (size_t)g.range( 1, 70 ), a = (size_t)1 << g.range( 3, 8 );
		switch ( g.weighted( { 4, 4, 3, 4, 3, 1 } ) ) {
		case 0: log.push_back( fmt( "alloc %zu", n ) ); mk( gen::alloc( al, n ), n, 16, "alloc" ); break;
		case 1: log.push_back( fmt( "alloc_align %zu %zu", n, a ) ); mk( alloc_align( al, n, a ), n, a, "alloc_align" ); break;
		case 2: { if ( live.empty() ) return; size_t k = g.draw( live.size() ); log.push_back( fmt( "free block %zu", k ) ); allocator_free( al, live[ k ].p ); live.erase( live.begin() + k ); pbt::describe( g, dump( log ) ); verify( live, "free" ); } break;
		case 3: case 4: {
			bool fresh = live.empty() || g.coin( 1, 6 ); size_t k = fresh ? 0 : g.draw( live.size() ); Block b = fresh ? Block{ nullptr, 0, tag++ } : live[ k ];
			if ( ! fresh && g.coin( 1, 5 ) ) n = b.n; bool zero = ! fresh && g.coin( 1, 8 ); if ( zero ) n = 0;
			bool aligned = g.coin(); if ( ! aligned ) a = 16;
			log.push_back( fmt( "resize block %d %zu -> %zu (align %zu)", fresh ? -1 : (int)k, b.n, n, a ) ); pbt::describe( g, dump( log ) );
			char* p = (char*)( aligned ? resize_align( al, b.p, b.n, n, a ) : resize( al, b.p, b.n, n ) );
			if ( zero ) { PBT_CHECK( p == nullptr, "resize to 0 returned a block" ); live.erase( live.begin() + k ); verify( live, "resize to 0" ); break; }
			PBT_CHECK( p, "resize returned null" ); if ( p != b.p ) PBT_CHECK( (uintptr_t)p % a == 0, "resize: alignment %zu not respected", a );
			for ( size_t i = 0; i < std::min( n, b.n ); ++i ) PBT_CHECK( (unsigned char)p[ i ] == pat( b.tag, i ), "resize %zu -> %zu: byte %zu was not preserved", b.n, n, i );
			if ( ! fresh ) live.erase( live.begin() + k );
			Block nb{ p, std::max( n, b.n ), b.tag }; if ( fresh ) nb.n = n; disjoint( live, nb, "resize" ); paint( nb ); live.push_back( nb ); verify( live, "resize" ); resized = true;
		} break;
		case 5: log.push_back( "free null" ); allocator_free( al, nullptr ); break;
		}
	}, 12 );
	if ( counted ) { PBT_CHECK( cnt.bad == 0, "a block was freed twice or was never allocated" ); PBT_CHECK( cnt.live.size() == live.size(), "allocator holds %zu blocks, model %zu", cnt.live.size(), live.size() ); }
	for ( auto& b : live ) allocator_free( al, b.p );
	if ( counted ) PBT_CHECK( cnt.live.empty(), "blocks leaked" );
	g.nontrivial = steps > 4 && resized; if ( resized ) g.label( "resized" ); if ( counted ) g.label( "custom allocator" );
}

void arena_case( pbt::Gen& g )
{
	std::vector<std::string> log; std::vector<Block> live; unsigned char tag = 1; Counting cnt; AllocatorInfo back{ counting_proc, & cnt };
	ssize total = g.range( 64, 20000 ); int kind = (int)g.draw( 4 ); std::vector<char> raw; Arena ar; Arena parent; FixedArena<4096>* fa = nullptr; Arena* A = & ar;
	switch ( kind ) {
	case 0: ar = arena_init_from_allocator( back, total ); log.push_back( fmt( "arena from allocator, %ld bytes", (long)total ) ); break;
	case 1: { int off = (int)g.draw( 16 ); raw.resize( total + off ); ar = arena_init_from_memory( raw.data() + off, total ); log.push_back( fmt( "arena from memory, %ld bytes, offset %d", (long)total, off ) ); } break;
	case 2: parent = arena_init_from_allocator( back, 100 ); ar = arena_init_sub( & parent, total ); log.push_back( fmt( "sub arena, %ld bytes", (long)total ) ); break;
	case 3: fa = new FixedArena<4096>; total = 4096; fixed_arena_init( fa ); A = & fa->arena; log.push_back( "fixed arena of 4096" ); PBT_CHECK( fixed_arena_size_remaining( fa, 1 ) == 4096, "fixed_arena_size_remaining of a fresh arena" ); break;
	}
	char* base = (char*)A->PhysicalStart; PBT_CHECK( base, "arena has no memory" ); AllocatorInfo al = fa ? fixed_arena_allocator_info( fa ) : arena_allocator_info( A );
	ssize used = 0; bool aligned = false, full = false, reset = false;
	auto fits = [&]( size_t n, size_t a ) { ssize pad = ( a - ( (uintptr_t)base + used ) % a ) % a; return used + pad + (ssize)( ( n + a - 1 ) / a * a ) <= total; };
	auto place = [&]( void* p, size_t n, size_t a, unsigned char t, const char* op ) {
		pbt::describe( g, dump( log ) ); PBT_CHECK( p, "%s returned null", op ); Block b{ (char*)p, n, t };
		PBT_CHECK( b.p >= base && b.p + n <= base + total, "%s: block [%ld,%ld) lies outside the arena of %ld bytes", op, (long)( b.p - base ), (long)( b.p - base + n ), (long)total );
		PBT_CHECK( (uintptr_t)p % a == 0, "%s: alignment %zu not respected", op, a ); disjoint( live, b, op );
		PBT_CHECK( A->TotalUsed >= b.p + n - base && A->TotalUsed <= total, "%s: TotalUsed %ld does not cover the block ending at %ld (of %ld)", op, (long)A->TotalUsed, (long)( b.p + n - base ), (long)total );
		return b;
	};
	int steps = g.many( 1, 10 + g.size, [&]( int ) {
		size_t a = (size_t)1 << g.range( 0, 7 ), n = g.coin( 1, 5 ) ? (size_t)g.range( 1, total ) : (size_t)g.range( 1, 200 );
		used = A->TotalUsed;
		ssize rem = arena_size_remaining( A, a ); ssize pad = ( a - ( (uintptr_t)base + used ) % a ) % a;
		PBT_CHECK( rem == total - used - pad && A->size_remaining( a ) == rem, "size_remaining(%zu) = %ld with %ld of %ld used and %ld padding", a, (long)rem, (long)used, (long)total, (long)pad );
		PBT_CHECK( arena_alignment_of( A, a ) == pad, "alignment_of(%zu) = %ld, padding is %ld", a, (long)arena_alignment_of( A, a ), (long)pad );
		switch ( g.weighted( { 6, 4, 3, 1, 1 } ) ) {
		case 0: a = 16; case 1: {
			if ( ! fits( n, a ) ) { full = true; return; }
			bool def = a == 16 && g.coin(); log.push_back( fmt( "alloc %zu align %zu", n, a ) );
			void* p = def ? gen::alloc( al, n ) : alloc_align( al, n, a ); Block b = place( p, n, a, tag++, "alloc" ); zeroed( b, "alloc" ); paint( b ); live.push_back( b ); verify( live, "alloc" ); aligned |= a > 1 && pad;
		} break;
		case 2: {
			if ( live.empty() ) return; size_t k = g.draw( live.size() ); Block b = live[ k ]; size_t to = (size_t)g.range( 1, b.n * 2 + 20 );
			if ( ! fits( to, a ) ) { full = true; return; }
			log.push_back( fmt( "resize block %zu %zu -> %zu align %zu", k, b.n, to, a ) );
			void* p = resize_align( al, b.p, b.n, to, a ); PBT_CHECK( p, "resize returned null" );
			live.erase( live.begin() + k ); size_t n2 = p == b.p ? std::max( to, b.n ) : to; if ( p == b.p && to > b.n ) pbt::fail( "resize grew in place without reserving memory" );
			Block nb = p == b.p ? b : place( p, n2, a, b.tag, "resize" );
			for ( size_t i = 0; i < std::min( to, b.n ); ++i ) PBT_CHECK( (unsigned char)nb.p[ i ] == pat( b.tag, i ), "resize: byte %zu was not preserved", i );
			paint( nb ); live.push_back( nb ); verify( live, "resize" );
		} break;
		case 3: { log.push_back( "free one (no effect)" ); if ( live.size() ) allocator_free( al, live[ g.draw( live.size() ) ].p ); PBT_CHECK( A->TotalUsed == used, "free changed an arena" ); verify( live, "free" ); } break;
		case 4: { if ( ! g.coin( 1, 3 ) ) return; log.push_back( "free_all" ); free_all( al ); PBT_CHECK( A->TotalUsed == 0, "free_all left %ld used", (long)A->TotalUsed ); live.clear(); reset = true; } break;
		}
	}, 14 );
	arena_check( A );
	if ( kind == 0 || kind == 2 ) { arena_free( A ); PBT_CHECK( A->PhysicalStart == nullptr && cnt.live.size() == ( kind == 2 ? 1u : 0u ) && cnt.bad == 0, "arena_free did not return exactly its memory" ); if ( kind == 2 ) { arena_free( & parent ); PBT_CHECK( cnt.live.empty(), "parent arena was not freed" ); } }
	else if ( kind == 1 ) arena_free( A );
	else { fixed_arena_free( fa ); delete fa; }
	g.nontrivial = steps > 4 && aligned; if ( full ) g.label( "a request did not fit" ); if ( reset ) g.label( "free_all" ); if ( aligned ) g.label( "padding needed" );
}

void pool_case( pbt::Gen& g )
{
	std::vector<std::string> log; Counting cnt; AllocatorInfo back{ counting_proc, & cnt };
	ssize blocks = g.range( 1, 24 ), bs = g.range( 8, 200 ), ba = (ssize)1 << g.range( 3, 6 ); bool def = g.coin( 1, 3 ); if ( def ) ba = 16; bs = ( bs + ba - 1 ) / ba * ba;
	Pool pool = def ? pool_init( back, blocks, bs ) : pool_init_align( back, blocks, bs, ba ); AllocatorInfo al = pool_allocator_info( & pool );
	log.push_back( fmt( "pool of %ld blocks, %ld bytes, align %ld", (long)blocks, (long)bs, (long)ba ) );
	std::vector<Block> live; unsigned char tag = 1; char* base = (char*)pool.PhysicalStart; size_t mem = cnt.live.count( base ) ? cnt.live[ base ] : 0; bool reused = false, drained = false, cleared = false; std::set<char*> freed;
	PBT_CHECK( mem, "the pool's memory does not come from its backing allocator" );
	int steps = g.many( 1, 10 + g.size, [&]( int ) {
		switch ( g.weighted( { 8, 5, 1, 1 } ) ) {
		case 0: {
			if ( (ssize)live.size() == blocks ) { drained = true; PBT_CHECK( pool.FreeList == nullptr, "all %ld blocks are live and the pool offers another one", (long)blocks ); return; }
			PBT_CHECK( pool.FreeList != nullptr, "%zu of %ld blocks are live and the pool is exhausted", live.size(), (long)blocks );
			log.push_back( "alloc" ); pbt::describe( g, dump( log ) ); char* p = (char*)alloc_align( al, bs, ba ); PBT_CHECK( p, "alloc returned null" ); Block b{ p, (size_t)bs, tag++ };
			PBT_CHECK( p >= base && p + bs <= base + mem, "block lies outside the pool's memory" ); PBT_CHECK( (uintptr_t)p % ba == 0, "alignment %ld not respected", (long)ba ); disjoint( live, b, "alloc" ); zeroed( b, "alloc" ); paint( b ); live.push_back( b ); verify( live, "alloc" ); reused |= freed.count( p ) != 0;
		} break;
		case 1: { if ( live.empty() ) return; size_t k = g.draw( live.size() ); log.push_back( fmt( "free block %zu", k ) ); pbt::describe( g, dump( log ) ); freed.insert( live[ k ].p ); allocator_free( al, live[ k ].p ); live.erase( live.begin() + k ); verify( live, "free" ); } break;
		case 2: { if ( ! g.coin( 1, 3 ) ) return; log.push_back( "pool_clear" ); pool_clear( & pool ); live.clear(); cleared = true; } break;
		case 3: { if ( ! g.coin( 1, 3 ) ) return; log.push_back( "free_all" ); free_all( al ); live.clear(); cleared = true; } break;
		}
		pbt::describe( g, dump( log ) );
		PBT_CHECK( pool.TotalSize == (ssize)live.size() * bs, "pool counts %ld bytes in use, %zu blocks of %ld are live", (long)pool.TotalSize, live.size(), (long)bs );
	}, 16 );
	pool_free( & pool ); PBT_CHECK( cnt.live.empty() && cnt.bad == 0, "pool_free did not return the pool's memory" );
	g.nontrivial = steps > 5 && ( reused || drained || cleared ); if ( reused ) g.label( "block reused" ); if ( drained ) g.label( "pool drained" ); if ( cleared ) g.label( "cleared" );
}

void mem_case( pbt::Gen& g )
{
	size_t size = g.coin( 1, 4 ) ? (size_t)g.range( 0, 600 ) : (size_t)g.range( 0, 80 ); size_t off = g.draw( 16 );
	// the buffer ends exactly where the helper may last touch it
	std::vector<unsigned char> init( off + size ); for ( auto& c : init ) c = (unsigned char)g.draw( 4 );
	auto exact = [&]( const std::vector<unsigned char>& v ) { unsigned char* p = (unsigned char*)::malloc( v.size() ? v.size() : 1 ); memcpy( p, v.data(), v.size() ); return p; };
	struct Own { unsigned char* p; ~Own() { ::free( p ); } };
	u8 c = (u8)( g.coin() ? g.draw( 5 ) : g.draw( 256 ) );
	size_t a = g.draw( size + 1 ), b = g.draw( size + 1 ), n = g.draw( size - std::max( a, b ) + 1 );
	pbt::describe( g, fmt( "size %zu, misalignment %zu, byte %d, from %zu to %zu, %zu bytes", size, off, c, a, b, n ) );
	{ Own o{ exact( init ) }; std::vector<unsigned char> m( init ); void* r = mem_set( o.p + off, c, (ssize)size ); memset( m.data() + off, c, size ); PBT_CHECK( r == o.p + off && memcmp( o.p, m.data(), m.size() ) == 0, "mem_set of %zu bytes at misalignment %zu", size, off ); }
	{ Own o{ exact( init ) }; std::vector<unsigned char> m( init ); zero_size( o.p + off, (ssize)size ); memset( m.data() + off, 0, size ); PBT_CHECK( memcmp( o.p, m.data(), m.size() ) == 0, "zero_size of %zu bytes", size ); }
	{ Own o{ exact( init ) }; std::vector<unsigned char> m( init ); void* r = mem_move( o.p + off + b, o.p + off + a, (ssize)n ); memmove( m.data() + off + b, m.data() + off + a, n ); PBT_CHECK( r == o.p + off + b && memcmp( o.p, m.data(), m.size() ) == 0, "mem_move of %zu bytes from %zu to %zu (misalignment %zu)", n, a, b, off ); }
	{ Own s{ exact( init ) }; Own d{ exact( std::vector<unsigned char>( init.size(), 9 ) ) }; void* r = mem_copy( d.p + off + b, s.p + off + a, (ssize)n ); std::vector<unsigned char> m( init.size(), 9 ); memcpy( m.data() + off + b, init.data() + off + a, n ); PBT_CHECK( r == d.p + off + b && memcmp( d.p, m.data(), m.size() ) == 0, "mem_copy of %zu bytes", n ); }
	{ Own o{ exact( init ) }; void const* r = mem_find( o.p + off, c, (ssize)size ); void const* e = size ? memchr( o.p + off, c, size ) : nullptr; PBT_CHECK( r == e, "mem_find of byte %d in %zu bytes at misalignment %zu: offset %ld, expected %ld", c, size, off, r ? (long)( (char*)r - (char*)o.p - (long)off ) : -1L, e ? (long)( (char*)e - (char*)o.p - (long)off ) : -1L ); }
	ssize al = (ssize)1 << g.range( 0, 16 ); uintptr_t p = g.bits( 40 ); s64 v = (s64)g.bits( 40 ); ssize x = g.coin() ? (ssize)( (u64)1 << g.draw( 63 ) ) + (ssize)g.range( -1, 1 ) : (ssize)g.range( -5, 300 );
	{ uintptr_t r = (uintptr_t)align_forward( (void*)p, al ); PBT_CHECK( r >= p && r - p < (uintptr_t)al && r % al == 0, "align_forward(%zx,%ld) = %zx", (size_t)p, (long)al, (size_t)r ); s64 q = align_forward_s64( v, al ); PBT_CHECK( q >= v && q - v < al && q % al == 0, "align_forward_s64(%lld,%ld) = %lld", (long long)v, (long)al, (long long)q ); }
	PBT_CHECK( !! is_power_of_two( x ) == ( x > 0 && __builtin_popcountll( (u64)x ) == 1 ), "is_power_of_two(%lld) = %d", (long long)x, (int)is_power_of_two( x ) );
	PBT_CHECK( pointer_add( (void*)p, v ) == (void*)( p + v ) && pointer_diff( (void*)p, pointer_add( (void*)p, v ) ) == v && pointer_add_const( (void*)p, -v ) == (void*)( p - v ), "pointer_add / pointer_diff" );
	{ u64 k1 = g.bits( 20 ), k2 = g.bits( 20 ), s1 = k1, s2 = k2; gen::swap( s1, s2 ); PBT_CHECK( s1 == k2 && s2 == k1, "swap" ); }
	g.nontrivial = size > 8 && n > 2; if ( a < b && b < a + n ) g.label( "overlap, forward" ); if ( b < a && a < b + n ) g.label( "overlap, backward" ); if ( size > 24 ) g.label( "word path" );
}

void vm_case( pbt::Gen& g )
{
	ssize align = 0, page = virtual_memory_page_size( & align ); PBT_CHECK( page == sysconf( _SC_PAGESIZE ) && align >= page && align % page == 0, "page size %ld align %ld", (long)page, (long)align );
	int pages = (int)g.range( 1, 12 ); int lead = (int)g.draw( pages ), keep = (int)g.range( 1, pages - lead );
	pbt::describe( g, fmt( "vm of %d pages, trimmed to [%d,+%d)", pages, lead, keep ) );
	VirtualMemory vm = vm_alloc( nullptr, pages * page ); PBT_CHECK( vm.data && vm.data != (void*)-1 && vm.size == pages * page && (uintptr_t)vm.data % page == 0, "vm_alloc" );
	char* p = (char*)vm.data; for ( int i = 0; i < pages; ++i ) { PBT_CHECK( p[ (ssize)i * page ] == 0 && p[ ( i + 1 ) * page - 1 ] == 0, "fresh virtual memory is not zero" ); memset( p + (ssize)i * page, i + 1, page ); }
	VirtualMemory t = vm_trim( vm, lead * page, keep * page ); PBT_CHECK( t.data == p + lead * page && t.size == keep * page, "vm_trim returns offset %ld, %ld bytes", (long)( (char*)t.data - p ), (long)t.size );
	auto mapped = [&]( int i ) { unsigned char v[ 1 ]; return mincore( p + (ssize)i * page, page, v ) == 0; };
	for ( int i = 0; i < pages; ++i ) { bool in = i >= lead && i < lead + keep; if ( in ) { char* q = p + (ssize)i * page; for ( ssize k = 0; k < page; k += 61 ) PBT_CHECK( q[ k ] == (char)( i + 1 ), "vm_trim lost the contents it keeps" ); } PBT_CHECK( mapped( i ) == in, "page %d is %s after vm_trim", i, in ? "unmapped" : "still mapped" ); }
	if ( g.coin() ) PBT_CHECK( vm_purge( t ), "vm_purge" );
	PBT_CHECK( vm_free( t ), "vm_free" ); for ( int i = lead; i < lead + keep; ++i ) PBT_CHECK( ! mapped( i ), "page %d is still mapped after vm_free", i );
	g.nontrivial = pages > 2 && keep < pages;
}

int main( int argc, char** argv )
{
	pbt::Engine e; e.cfg.property = "C12";
	e.cfg.rule = "heap: more than 4 operations with a resize; arena: more than 4 operations with padding needed; pool: more than 5 operations with reuse, exhaustion or clearing; mem: more than 8 bytes; vm: a real trim. Distinct = distinct history / parameters.";
	e.suites.push_back( { "heap",  heap_case,  150000, 1500000, 400 } );
	e.suites.push_back( { "arena", arena_case, 150000, 1500000, 400 } );
	e.suites.push_back( { "pool",  pool_case,  150000, 1500000, 400 } );
	e.suites.push_back( { "mem",   mem_case,   600000, 6000000, 2000 } );
	e.suites.push_back( { "vm",    vm_case,    20000,  100000, 200 } );
	return e.main( argc, argv );
}

// Containers: Array<T> against std::vector, HashTable<T> against std::map, over generated operation histories.
#include "gencpp.hpp"
#include <map>
#include <vector>
using namespace gen;
using pbt::fmt;

struct Big { u64 a; u32 b; u64 c; bool operator==( const Big& o ) const { return a == o.a && b == o.b && c == o.c; } };
template<class T> T mk( u64 v ) { return (T)v; }
template<> Big mk<Big>( u64 v ) { return Big{ v, (u32)( v * 7 ), ~v }; }
template<class T> std::string sh( T v ) { return std::to_string( (unsigned long long)v ); }
template<> std::string sh<Big>( Big v ) { return std::to_string( v.a ); }

static std::string dump( const std::vector<std::string>& log ) { std::string o; for ( auto& l : log ) o += l + "\n"; return o; }

template<class T> void array_case( pbt::Gen& g )
{
	std::vector<T> m; std::vector<std::string> log;
	AllocatorInfo al = heap();
	Array<T> a; usize cap0 = 0;
	if ( g.coin() ) { a = array_init<T>( al ); log.push_back( "init" ); cap0 = array_grow_formula( 0 ); }
	else { cap0 = (usize)g.range( 1, 20 ); a = array_init_reserve<T>( al, (ssize)cap0 ); log.push_back( fmt( "init_reserve %zu", (size_t)cap0 ) ); }
	PBT_CHECK( a.Data != nullptr, "init returned null" );
	PBT_CHECK( array_get_header( a )->Capacity == (ssize)cap0, "initial capacity %ld, asked for %ld", (long)array_get_header( a )->Capacity, (long)cap0 );
	bool grew = false, mid = false;
	auto check = [&]( const char* op ) {
		ArrayHeader* h = array_get_header( a );
		pbt::describe( g, dump( log ) );
		PBT_CHECK( array_num( a ) == (usize)m.size() && a.num() == (usize)m.size(), "after %s: num %ld, model %zu", op, (long)array_num( a ), m.size() );
		PBT_CHECK( h->Capacity >= h->Num, "after %s: capacity %ld < num %ld", op, (long)h->Capacity, (long)h->Num );
		PBT_CHECK( h->Allocator.Proc == al.Proc && h->Allocator.Data == al.Data, "after %s: allocator changed", op );
		for ( size_t i = 0; i < m.size(); ++i ) PBT_CHECK( a.Data[ i ] == m[ i ], "after %s: element %zu is %s, model %s", op, i, sh( (T)a.Data[ i ] ).c_str(), sh( m[ i ] ).c_str() );
		T* b = array_back( a ); PBT_CHECK( m.empty() ? b == nullptr : b == a.Data + m.size() - 1, "after %s: back()", op );
		size_t n = 0; for ( T* p = a.begin(); p != a.end(); ++p ) { ++n; if ( n > m.size() ) break; } PBT_CHECK( n == m.size(), "after %s: iteration visits %zu of %zu", op, n, m.size() );
	};
	u64 ctr = 1; auto fresh = [&]{ return mk<T>( g.coin( 1, 4 ) ? g.bits( 16 ) : ctr++ ); };
	int steps = g.many( 1, 10 + g.size, [&]( int ) {
		usize cap = array_get_header( a )->Capacity;
		switch ( g.weighted( { 12, 5, 6, 5, 3, 4, 4, 2, 3, 3, 3, 2, 2, 2 } ) ) {
		case 0: { T v = fresh(); log.push_back( "append " + sh( v ) ); bool mb = g.coin( 1, 3 ); PBT_CHECK( mb ? a.append( v ) : array_append( & a, v ), "append failed" ); m.push_back( v ); check( "append" ); } break;
		case 1: { int n = (int)g.range( 1, 14 ); std::vector<T> v; for ( int i = 0; i < n; ++i ) v.push_back( fresh() ); log.push_back( fmt( "append_items n=%d", n ) ); PBT_CHECK( array_append_items( & a, v.data(), (usize)n ), "append_items failed" ); m.insert( m.end(), v.begin(), v.end() ); check( "append_items" ); } break;
		case 2: { usize i = (usize)g.range( 0, m.size() + 2 ); T v = fresh(); log.push_back( fmt( "append_at %zu ", (size_t)i ) + sh( v ) ); PBT_CHECK( array_append_at( & a, v, i ), "append_at failed" ); m.insert( m.begin() + std::min<size_t>( i, m.size() ), v ); mid = true; check( "append_at" ); } break;
		case 3: { if ( m.empty() ) return; usize i = (usize)g.range( 0, m.size() ); int n = (int)g.range( 1, 9 ); std::vector<T> v; for ( int k = 0; k < n; ++k ) v.push_back( fresh() ); log.push_back( fmt( "append_items_at %zu n=%d", (size_t)i, n ) ); PBT_CHECK( array_append_items_at( & a, v.data(), (usize)n, i ), "append_items_at failed" ); m.insert( m.begin() + i, v.begin(), v.end() ); mid = true; check( "append_items_at" ); } break;
		case 4: { if ( m.empty() ) return; log.push_back( "pop" ); array_pop( a ); m.pop_back(); check( "pop" ); } break;
		case 5: { if ( m.empty() ) return; usize i = (usize)g.range( 0, m.size() - 1 ); log.push_back( fmt( "remove_at %zu", (size_t)i ) ); array_remove_at( a, i ); m.erase( m.begin() + i ); mid = true; check( "remove_at" ); } break;
		case 6: { usize b = (usize)g.range( 0, m.size() ), e = (usize)g.range( b, m.size() + 2 ); T v = fresh(); log.push_back( fmt( "fill %zu..%zu", (size_t)b, (size_t)e ) ); bool r = array_fill( a, b, e, v ); PBT_CHECK( r == ( e <= (usize)m.size() ), "fill %zu..%zu of %zu returned %d", (size_t)b, (size_t)e, m.size(), r ); if ( r ) for ( usize i = b; i < e; ++i ) m[ i ] = v; check( "fill" ); } break;
		case 7: { log.push_back( "clear" ); array_clear( a ); m.clear(); check( "clear" ); PBT_CHECK( array_get_header( a )->Capacity == (ssize)cap, "clear changed the capacity" ); } break;
		case 8: { usize n = (usize)g.range( 0, m.size() + 12 ); log.push_back( fmt( "resize %zu", (size_t)n ) ); size_t old = m.size(); PBT_CHECK( array_resize( & a, n ), "resize failed" ); PBT_CHECK( array_num( a ) == n, "resize: num %zu, asked %zu", (size_t)array_num( a ), (size_t)n );
			m.resize( n, mk<T>( 0 ) ); for ( size_t i = old; i < (size_t)n; ++i ) a.Data[ i ] = m[ i ] = fresh(); check( "resize" ); } break;
		case 9: { usize n = (usize)g.range( 0, cap + 20 ); log.push_back( fmt( "reserve %zu", (size_t)n ) ); PBT_CHECK( array_reserve( & a, n ), "reserve failed" ); PBT_CHECK( array_get_header( a )->Capacity >= (ssize)std::max( n, cap ), "reserve %zu: capacity %zu -> %zu", (size_t)n, (size_t)cap, (size_t)array_get_header( a )->Capacity ); check( "reserve" ); } break;
		case 10: { usize n = (usize)g.range( 1, cap + 20 ); log.push_back( fmt( "set_capacity %zu", (size_t)n ) ); PBT_CHECK( array_set_capacity( & a, n ), "set_capacity failed" ); if ( n < (usize)m.size() ) m.resize( n ); check( "set_capacity" ); PBT_CHECK( array_get_header( a )->Capacity >= (ssize)n, "set_capacity %zu left capacity %zu", (size_t)n, (size_t)array_get_header( a )->Capacity ); } break;
		case 11: { usize n = (usize)g.range( 1, 60 ); log.push_back( fmt( "grow %zu", (size_t)n ) ); PBT_CHECK( array_grow( & a, n ), "grow failed" ); PBT_CHECK( array_get_header( a )->Capacity >= (ssize)std::max( n, cap ), "grow %zu: capacity %zu", (size_t)n, (size_t)array_get_header( a )->Capacity ); check( "grow" ); } break;
		case 12: { Array<T> o = array_init<T>( al ); int n = (int)g.range( 1, 20 ); std::vector<T> v; for ( int i = 0; i < n; ++i ) { T x = fresh(); v.push_back( x ); array_append( & o, x ); } log.push_back( fmt( "append_array n=%d", n ) ); PBT_CHECK( array_append_array( & a, o ), "append_array failed" ); m.insert( m.end(), v.begin(), v.end() ); check( "append_array" ); for ( int i = 0; i < n; ++i ) PBT_CHECK( o.Data[ i ] == v[ i ], "append_array changed its source" ); array_free( & o ); } break;
		case 13: { if ( m.empty() ) return; usize i = (usize)g.range( 0, m.size() - 1 ); T v = fresh(); log.push_back( fmt( "write [%zu]", (size_t)i ) ); a[ (ssize)i ] = v; m[ i ] = v; check( "operator[]" ); } break;
		}
		grew |= array_get_header( a )->Capacity > (ssize)cap;
	}, 12 );
	log.push_back( "free" ); array_free( & a ); PBT_CHECK( a.Data == nullptr, "free left the handle set" );
	pbt::describe( g, dump( log ) ); g.nontrivial = grew && mid && steps > 4;
	if ( grew ) g.label( "reallocated" ); if ( mid ) g.label( "middle insert/remove" );
}

static std::vector<std::pair<u64,u64>> seen;
template<class T> void collect( u64 k, T v ) { seen.push_back( { k, (u64)v } ); }
template<class T> void mutate( u64 k, T* v ) { *v = (T)( (u64)*v * 3 + k ); }

template<class T> void table_case( pbt::Gen& g )
{
	std::map<u64,T> m; std::vector<u64> order; std::vector<std::string> log;
	AllocatorInfo al = heap(); HashTable<T> t;
	if ( g.coin() ) { t = hashtable_init<T>( al ); log.push_back( "init" ); }
	else { usize n = (usize)g.range( 1, 40 ); t = hashtable_init_reserve<T>( al, n ); log.push_back( fmt( "init_reserve %zu", (size_t)n ) ); }
	int space = (int)g.pick( std::vector<int>{ 4, 12, 40, 400 } ); int stride = (int)g.pick( std::vector<int>{ 1, 8, 16, 24, 56 } ); u64 base = g.coin( 1, 3 ) ? g.bits( 64 ) : 0;
	auto key = [&]{ return base + (u64)g.draw( space ) * stride; };
	bool grew = false, removed = false, collided = false;
	auto check = [&]( const char* op ) {
		pbt::describe( g, dump( log ) );
		PBT_CHECK( array_num( t.Entries ) == (usize)m.size(), "after %s: %zu entries, model %zu", op, (size_t)array_num( t.Entries ), m.size() );
		for ( auto& kv : m ) { T* p = hashtable_get( t, kv.first ); PBT_CHECK( p, "after %s: key %llu is lost", op, (unsigned long long)kv.first ); PBT_CHECK( *p == kv.second, "after %s: key %llu maps to %llu, model %llu", op, (unsigned long long)kv.first, (unsigned long long)*p, (unsigned long long)kv.second ); }
		for ( int i = 0; i < 4; ++i ) { u64 k = key(); if ( ! m.count( k ) ) PBT_CHECK( hashtable_get( t, k ) == nullptr, "after %s: key %llu is present but was never set or was removed", op, (unsigned long long)k ); }
		for ( size_t i = 0; i < order.size(); ++i ) PBT_CHECK( t.Entries.Data[ i ].Key == order[ i ], "after %s: entry order changed", op );
	};
	u64 ctr = 1;
	int steps = g.many( 1, 10 + g.size * 2, [&]( int ) {
		size_t before = array_num( t.Hashes );
		switch ( g.weighted( { 30, 6, 1, 2, 2, 2, 1, 1 } ) ) {
		case 0: { u64 k = key(); T v = (T)( ctr++ ); log.push_back( fmt( "set %llu = %llu", (unsigned long long)k, (unsigned long long)v ) ); for ( u64 o : order ) if ( o != k && o % before == k % before ) collided = true; hashtable_set( & t, k, v ); if ( ! m.count( k ) ) order.push_back( k ); m[ k ] = v; check( "set" ); } break;
		case 1: { u64 k = order.size() && g.coin( 3, 4 ) ? order[ g.draw( order.size() ) ] : key(); log.push_back( fmt( "remove %llu", (unsigned long long)k ) ); hashtable_remove( t, k ); if ( m.erase( k ) ) { order.erase( std::find( order.begin(), order.end(), k ) ); removed = true; } check( "remove" ); } break;
		case 2: { log.push_back( "clear" ); hashtable_clear( t ); m.clear(); order.clear(); check( "clear" ); } break;
		case 3: { ssize n = (ssize)g.range( std::max<size_t>( 1, m.size() ), m.size() * 2 + 20 ); log.push_back( fmt( "rehash %ld", (long)n ) ); hashtable_rehash( & t, n ); PBT_CHECK( array_num( t.Hashes ) == (usize)n, "rehash: %ld buckets, asked %ld", (long)array_num( t.Hashes ), (long)n ); check( "rehash" ); } break;
		case 4: { log.push_back( "grow" ); hashtable_grow( & t ); check( "grow" ); } break;
		case 5: { log.push_back( "rehash_fast" ); hashtable_rehash_fast( t ); check( "rehash_fast" ); } break;
		case 6: { log.push_back( "map" ); seen.clear(); hashtable_map( t, collect<T> ); PBT_CHECK( seen.size() == m.size(), "map visits %zu of %zu entries", seen.size(), m.size() ); for ( size_t i = 0; i < seen.size(); ++i ) PBT_CHECK( seen[ i ].first == order[ i ] && seen[ i ].second == (u64)m[ order[ i ] ], "map visits a wrong entry" ); } break;
		case 7: { log.push_back( "map_mut" ); hashtable_map_mut( t, mutate<T> ); for ( auto& kv : m ) kv.second = (T)( (u64)kv.second * 3 + kv.first ); check( "map_mut" ); } break;
		}
		grew |= array_num( t.Hashes ) > (usize)before;
	}, 20 );
	log.push_back( "destroy" ); hashtable_destroy( & t );
	pbt::describe( g, dump( log ) ); g.nontrivial = steps > 6 && ( grew || removed ) && collided;
	if ( grew ) g.label( "table grew" ); if ( removed ) g.label( "removed an entry" ); if ( collided ) g.label( "bucket collision" );
}

int main( int argc, char** argv )
{
	pbt::Engine e; e.cfg.property = "C11";
	e.cfg.rule = "Array: the history reallocates, inserts or removes in the middle and has more than 4 operations. HashTable: more than 6 operations, two keys share a bucket, and the table grew or an entry was removed. Distinct = distinct operation history.";
	e.suites.push_back( { "array_u8",    array_case<u8>,  250000, 2500000, 400 } );
	e.suites.push_back( { "array_u64",   array_case<u64>, 250000, 2500000, 400 } );
	e.suites.push_back( { "array_struct",array_case<Big>, 250000, 2500000, 400 } );
	e.suites.push_back( { "table_u64",   table_case<u64>, 250000, 2500000, 400 } );
	e.suites.push_back( { "table_u32",   table_case<u32>, 250000, 2500000, 400 } );
	return e.main( argc, argv );
}

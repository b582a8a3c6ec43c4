#define G( x ) x
#define O( ... ) { __VA_ARGS__ }
#define CAST( T, x ) cast( T, x )
#define PTR( c ) ( (void*)( c ).ast )
#define ISNULL( c ) ( ( c ).ast == nullptr )
#define NULLCODE ( Code{ nullptr } )
#define TTYPE StrCached
#define TSTR( s ) s
#define TABLE_INIT hashtable_init( StrCached, heap() )
#define ITEMS_AT( a, v, n, i ) (int)array_append_items_at<ssize>( & a, v, n, i )
#define ARRAY Array( ssize )
#define ARRAY_EXPR array_expr
#define BUILDER_PRINT( b, c ) builder_print( b, c )
#define LOOKUP_MACRO lookup_macro
#define HT_grow( t ) hashtable_grow( t )
#define ARR_resize( a, n ) array_resize<ssize>( & a, n )
#define ARR_reserve( a, n ) array_reserve<ssize>( & a, n )
#define ARR_set_capacity( a, n ) array_set_capacity<ssize>( & a, n )
#include "ops.inl"
#undef G
#undef O
#undef CAST
#undef PTR
#undef ISNULL
#undef NULLCODE
#undef SET
#undef REG

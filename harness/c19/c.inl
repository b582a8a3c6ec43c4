#define G( x ) G_( x )
#define G_( x ) gen_##x
#define O( ... ) __VA_ARGS__
#define CAST( T, x ) ( (T)( x ) )
#define PTR( c ) ( (void*)( c ) )
#define ISNULL( c ) ( ( c ) == 0 )
#define NULLCODE ( (gen_Code)0 )
#define TTYPE gen_Str
#define TSTR( s ) s
#define TABLE_INIT gen_hashtable_init( gen_Str, gen_heap() )
#define ITEMS_AT( a, v, n, i ) (int)gen_array_append_items_at( a, v, n, i )
#define VP_EXPORT __attribute__(( visibility( "default" ) ))
#define ARRAY gen_Array( gen_ssize )
#define ARRAY_EXPR gen_array_expr
#define ARR_resize( a, n ) gen_array_resize( a, n )
#define BUILDER_PRINT( b, c ) gen_builder_print( b, c )
#define LOOKUP_MACRO lookup_macro
#define HT_grow( t ) gen_StringTable_grow( & t )
#define ARR_reserve( a, n ) gen_array_reserve( a, n )
#define ARR_set_capacity( a, n ) gen_Array_gen_ssize_set_capacity( & a, n )
#include "ops.inl"

// A small interpreter over the interface of gencpp, written in what C and C++ have in common, so that the same program can be
// run by the library as it is, by the generated single header, the generated segmented library and the generated C library.
// A program is bytes: an opcode, the length of its arguments in two bytes, its arguments (a byte each, strings as two bytes of length and the bytes).
// Everything observable goes to the log.
typedef const char* (*vp_Walk)( void* ast );
static char* vp_log; static size_t vp_len, vp_cap;
static void vp_put( const char* s, size_t n ) { if ( vp_len + n + 1 > vp_cap ) { vp_cap = ( vp_len + n + 1 ) * 2; vp_log = (char*)realloc( vp_log, vp_cap ); } memcpy( vp_log + vp_len, s, n ); vp_len += n; vp_log[ vp_len ] = 0; }
static void vp_say( const char* f, ... ) { char b[ 512 ]; va_list v; va_start( v, f ); int n = vsnprintf( b, sizeof b, f, v ); va_end( v ); vp_put( b, n < (int)sizeof b ? (size_t)n : sizeof b - 1 ); }
static const unsigned char* vp_p; static const unsigned char* vp_e;
static int rb( void ) { return vp_p < vp_e ? * vp_p++ : 0; }
static G(Str) rs( void ) { size_t n = (size_t)rb(); n = n << 8 | (size_t)rb(); if ( n > (size_t)( vp_e - vp_p ) ) n = (size_t)( vp_e - vp_p ); G(Str) s; s.Ptr = (const char*)vp_p; s.Len = (G(ssize))n; vp_p += n; return s; }
static char vp_z[ 8 ][ 70000 ]; static int vp_zi;
static G(Str) rz( void ) { G(Str) s = rs(); char* b = vp_z[ vp_zi++ & 7 ]; size_t n = (size_t)s.Len < 69999 ? (size_t)s.Len : 69999; memcpy( b, s.Ptr, n ); b[ n ] = 0; s.Ptr = b; s.Len = (G(ssize))n; return s; }
#define NREG 24
static G(Code) R[ NREG ];
#define REG( T ) CAST( T, R[ rb() % NREG ] )
static void vp_str( const char* what, G(Str) s ) { vp_say( "%s %d '", what, (int)s.Len ); vp_put( s.Ptr, s.Ptr ? (size_t)s.Len : 0 ); vp_say( "'\n" ); }
static void vp_txt( const char* what, G(Str) s ) { vp_say( "%s '", what ); vp_put( s.Ptr, s.Ptr ? (size_t)s.Len : 0 ); vp_say( "'\n" ); }     // text of code: its length depends on the prefix
static void vp_text( G(Code) c ) { G(StrBuilder) t = G(code_to_strbuilder)( c ); vp_put( (const char*)t, (size_t)G(strbuilder_length)( t ) ); }
static void vp_code( G(Code) c ) {
	if ( ISNULL( c ) ) { vp_say( "null\n" ); return; }
	if ( c->Type == CT_Invalid ) { vp_say( "invalid\n" ); return; }
	G(Str) k = G(codetype_to_str)( c->Type ); vp_say( "%d ", (int)c->Type ); vp_put( k.Ptr, (size_t)k.Len ); vp_say( " %d [", (int)c->NumEntries );
	switch ( c->Type ) { case CT_Constructor: case CT_Destructor: case CT_Constructor_Fwd: case CT_Destructor_Fwd: if ( ISNULL( c->Parent ) ) { vp_say( "]\n" ); return; } break; default: break; }
	vp_text( c ); vp_say( "]\n" );
}
static void vp_set( G(Code) c ) { int d = rb() % NREG; R[ d ] = c; vp_say( "r%d = ", d ); vp_code( c ); }
#define SET( x ) vp_set( CAST( G(Code), ( x ) ) )
static G(Context) vp_ctx; static char vp_path[ 64 ];
static ARRAY A; static G(StringTable) T; static G(StrBuilder) SB;
static void vp_array( void ) { size_t n = (size_t)G(array_num)( A ); vp_say( "array %d:", (int)n ); for ( size_t i = 0; i < n; ++i ) vp_say( " %d", (int)A[ i ] ); vp_say( "\n" ); }
static G(CodeBody) vp_body( int kind, int n, G(Code)* c ) {
	switch ( kind % 16 ) {
	case 0: return G(def_class_body_arr)( n, c ); case 1: return G(def_enum_body_arr)( n, c ); case 2: return G(def_export_body_arr)( n, c ); case 3: return G(def_extern_link_body_arr)( n, c );
	case 4: return G(def_function_body_arr)( n, c ); case 5: return G(def_global_body_arr)( n, c ); case 6: return G(def_namespace_body_arr)( n, c ); case 7: return G(def_struct_body_arr)( n, c );
	case 8: return G(def_union_body_arr)( n, c );
	case 9: return n == 1 ? G(def_class_body)( 1, c[ 0 ] ) : n == 2 ? G(def_class_body)( 2, c[ 0 ], c[ 1 ] ) : G(def_class_body)( 3, c[ 0 ], c[ 1 ], c[ 2 ] );
	case 10: return n == 1 ? G(def_enum_body)( 1, c[ 0 ] ) : n == 2 ? G(def_enum_body)( 2, c[ 0 ], c[ 1 ] ) : G(def_enum_body)( 3, c[ 0 ], c[ 1 ], c[ 2 ] );
	case 11: return n == 1 ? G(def_function_body)( 1, c[ 0 ] ) : n == 2 ? G(def_function_body)( 2, c[ 0 ], c[ 1 ] ) : G(def_function_body)( 3, c[ 0 ], c[ 1 ], c[ 2 ] );
	case 12: return n == 1 ? G(def_global_body)( 1, c[ 0 ] ) : n == 2 ? G(def_global_body)( 2, c[ 0 ], c[ 1 ] ) : G(def_global_body)( 3, c[ 0 ], c[ 1 ], c[ 2 ] );
	case 13: return n == 1 ? G(def_namespace_body)( 1, c[ 0 ] ) : n == 2 ? G(def_namespace_body)( 2, c[ 0 ], c[ 1 ] ) : G(def_namespace_body)( 3, c[ 0 ], c[ 1 ], c[ 2 ] );
	case 14: return n == 1 ? G(def_struct_body)( 1, c[ 0 ] ) : n == 2 ? G(def_struct_body)( 2, c[ 0 ], c[ 1 ] ) : G(def_struct_body)( 3, c[ 0 ], c[ 1 ], c[ 2 ] );
	default: return n == 1 ? G(def_union_body)( 1, c[ 0 ] ) : n == 2 ? G(def_union_body)( 2, c[ 0 ], c[ 1 ] ) : G(def_union_body)( 3, c[ 0 ], c[ 1 ], c[ 2 ] );
	}
}
static G(Code) vp_parse( int kind, G(Str) s ) {
#define P( f ) return CAST( G(Code), G(f)( s ) )
	switch ( kind % 20 ) {
	case 0: P( parse_class ); case 1: P( parse_constructor ); case 2: P( parse_define ); case 3: P( parse_destructor ); case 4: P( parse_enum ); case 5: P( parse_export_body ); case 6: P( parse_extern_link ); case 7: P( parse_friend );
	case 8: P( parse_function ); case 9: P( parse_global_body ); case 10: P( parse_namespace ); case 11: P( parse_operator ); case 12: P( parse_operator_cast ); case 13: P( parse_struct ); case 14: P( parse_template ); case 15: P( parse_type );
	case 16: P( parse_typedef ); case 17: P( parse_union ); case 18: P( parse_using ); default: P( parse_variable );
	}
#undef P
}
static G(Specifier) rspec( void ) { G(Str) s = rs(); for ( int i = 1; i < (int)Spec_NumSpecifiers; ++i ) if ( G(str_are_equal)( G(spec_to_str)( (G(Specifier))i ), s ) ) return (G(Specifier))i; return (G(Specifier))0; }
static void vp_op( int op, vp_Walk walk ) {
	G(Str) s, t, u; int n, k;
	switch ( op ) {
	case 1: k = rb(); s = rs(); { G(Code) c = vp_parse( k, s ); SET( c ); if ( walk && ! ISNULL( c ) && c->Type != CT_Invalid ) { const char* w = walk( PTR( c ) ); vp_put( w, strlen( w ) ); } } break;
	case 2: s = rs(); { G(Code) a = REG( G(Code) ); G(CodeSpecifiers) sp = REG( G(CodeSpecifiers) ); G(CodeAttributes) at = REG( G(CodeAttributes) ); k = rb() % 5; SET( G(def_type)( s, O( .type_tag = k == 0 ? Tag_None : k == 1 ? Tag_Struct : k == 2 ? Tag_Class : k == 3 ? Tag_Enum : Tag_UnderlyingType, .ARRAY_EXPR = a, .specifiers = sp, .attributes = at ) ) ); } break;
	case 3: { G(CodeTypename) ty = REG( G(CodeTypename) ); s = rs(); G(Code) v = REG( G(Code) ); if ( rb() & 1 ) SET( G(def_param)( ty, s, O( .value = v ) ) ); else SET( G(def_param)( ty, s ) ); } break;
	case 4: { n = 1 + rb() % 3; G(CodeParams) c[ 3 ]; c[ 0 ] = REG( G(CodeParams) ); c[ 1 ] = REG( G(CodeParams) ); c[ 2 ] = REG( G(CodeParams) ); k = rb(); if ( k & 1 ) SET( G(def_params_arr)( n, c ) ); else SET( n == 1 ? G(def_params)( 1, c[ 0 ] ) : n == 2 ? G(def_params)( 2, c[ 0 ], c[ 1 ] ) : G(def_params)( 3, c[ 0 ], c[ 1 ], c[ 2 ] ) ); } break;
	case 5: { G(Specifier) sp[ 3 ]; n = 1 + rb() % 3; for ( int i = 0; i < 3; ++i ) sp[ i ] = rspec(); k = rb() % 3; if ( k == 0 ) SET( G(def_specifier)( sp[ 0 ] ) ); else if ( k == 1 ) SET( G(def_specifiers_arr)( n, sp ) ); else SET( n == 1 ? G(def_specifiers)( 1, sp[ 0 ] ) : n == 2 ? G(def_specifiers)( 2, sp[ 0 ], sp[ 1 ] ) : G(def_specifiers)( 3, sp[ 0 ], sp[ 1 ], sp[ 2 ] ) ); } break;
	case 6: s = rs(); k = rb() % 3; if ( k == 0 ) SET( G(def_attributes)( s ) ); else if ( k == 1 ) SET( G(def_comment)( s ) ); else SET( G(untyped_str)( s ) ); break;
	case 7: { G(CodeTypename) ty = REG( G(CodeTypename) ); s = rs(); G(Code) v = REG( G(Code) ); G(CodeSpecifiers) sp = REG( G(CodeSpecifiers) ); G(CodeAttributes) at = REG( G(CodeAttributes) ); k = rb() % 4; if ( k == 0 ) SET( G(def_variable)( ty, s ) ); else SET( G(def_variable)( ty, s, O( .value = v, .specifiers = sp, .attributes = at, .mflags = k == 1 ? ModuleFlag_Export : ModuleFlag_None ) ) ); } break;
	case 8: { s = rs(); G(CodeParams) p = REG( G(CodeParams) ); G(CodeTypename) r = REG( G(CodeTypename) ); G(CodeBody) b = REG( G(CodeBody) ); G(CodeSpecifiers) sp = REG( G(CodeSpecifiers) ); G(CodeAttributes) at = REG( G(CodeAttributes) ); k = rb() % 4; SET( G(def_function)( s, O( .params = p, .ret_type = r, .body = b, .specs = sp, .attrs = at, .mflags = k == 1 ? ModuleFlag_Export : ModuleFlag_None ) ) ); } break;
	case 9: { s = rs(); G(CodeBody) b = REG( G(CodeBody) ); G(CodeTypename) p = REG( G(CodeTypename) ); G(AccessSpec) a = (G(AccessSpec))( rb() % AccessSpec_Num_AccessSpec ); G(CodeAttributes) at = REG( G(CodeAttributes) ); G(CodeTypename) in[ 2 ]; in[ 0 ] = REG( G(CodeTypename) ); in[ 1 ] = REG( G(CodeTypename) ); n = rb() % 3; G(CodeSpecifiers) sp = REG( G(CodeSpecifiers) ); k = rb() % 4;
		if ( k & 1 ) SET( G(def_class)( s, O( .body = b, .parent = p, .parent_access = a, .attributes = at, .interfaces = in, .num_interfaces = n, .specifiers = sp, .mflags = k == 1 ? ModuleFlag_Export : ModuleFlag_None ) ) ); else SET( G(def_struct)( s, O( .body = b, .parent = p, .parent_access = a, .attributes = at, .interfaces = in, .num_interfaces = n, .specifiers = sp, .mflags = k == 0 ? ModuleFlag_Export : ModuleFlag_None ) ) ); } break;
	case 10: { s = rs(); G(CodeBody) b = REG( G(CodeBody) ); G(CodeTypename) ty = REG( G(CodeTypename) ); G(CodeAttributes) at = REG( G(CodeAttributes) ); k = rb() % 4; SET( G(def_enum)( s, O( .body = b, .type = ty, .specifier = k & 1 ? EnumDecl_Class : EnumDecl_Regular, .attributes = at, .mflags = k & 2 ? ModuleFlag_Export : ModuleFlag_None ) ) ); } break;
	case 11: { s = rs(); G(CodeBody) b = REG( G(CodeBody) ); G(CodeAttributes) at = REG( G(CodeAttributes) ); k = rb() % 3; if ( k == 0 ) SET( G(def_union)( s, b, O( .attributes = at, .mflags = ModuleFlag_None ) ) ); else if ( k == 1 ) SET( G(def_namespace)( s, b, O( .mflags = ModuleFlag_Export ) ) ); else SET( G(def_extern_link)( s, b ) ); } break;
	case 12: { s = rs(); G(Code) c = REG( G(Code) ); G(CodeAttributes) at = REG( G(CodeAttributes) ); k = rb() % 4; if ( k == 0 ) SET( G(def_typedef)( s, c ) ); else if ( k == 1 ) SET( G(def_using)( s, CAST( G(CodeTypename), c ), O( .attributes = at, .mflags = ModuleFlag_None ) ) ); else if ( k == 2 ) SET( G(def_using_namespace)( s ) ); else SET( G(def_friend)( c ) ); } break;
	case 13: s = rs(); t = rs(); k = rb() % 6; if ( k == 0 ) SET( G(def_include)( s, O( .foreign = true ) ) ); else if ( k == 1 ) SET( G(def_include)( s ) ); else if ( k == 2 ) SET( G(def_pragma)( s ) ); else if ( k == 3 ) SET( G(def_execution)( s ) ); else if ( k == 4 ) { int c = rb() % 4; SET( G(def_preprocess_cond)( c == 0 ? PreprocessCond_If : c == 1 ? PreprocessCond_IfDef : c == 2 ? PreprocessCond_IfNotDef : PreprocessCond_ElIf, s ) ); } else SET( G(def_module)( s, O( .mflags = ModuleFlag_Export ) ) ); break;
	case 14: s = rs(); t = rs(); k = rb() % 3; SET( G(def_define)( s, k == 0 ? MT_Expression : k == 1 ? MT_Statement : MT_Typename, O( .content = t, .dont_register_to_preprocess_macros = rb() & 1 ) ) ); break;
	case 15: { k = rb(); n = 1 + rb() % 3; G(Code) c[ 3 ]; c[ 0 ] = REG( G(Code) ); c[ 1 ] = REG( G(Code) ); c[ 2 ] = REG( G(Code) ); SET( vp_body( k, n, c ) ); } break;
	case 16: { int d = rb() % NREG; G(Code) c = REG( G(Code) ); if ( ! ISNULL( R[ d ] ) && G(code_is_body)( R[ d ] ) && ! ISNULL( c ) && c->Type != CT_Invalid && PTR( c ) != PTR( R[ d ] ) ) { if ( G(code_is_body)( c ) ) G(body_append_body)( CAST( G(CodeBody), R[ d ] ), CAST( G(CodeBody), c ) ); else G(body_append)( CAST( G(CodeBody), R[ d ] ), c ); vp_say( "append to r%d: ", d ); vp_code( R[ d ] ); } } break;
	case 17: { G(Code) c = REG( G(Code) ); if ( ! ISNULL( c ) && c->Type != CT_Invalid ) SET( G(code_duplicate)( c ) ); else rb(); } break;
	case 18: { G(Code) a = REG( G(Code) ); G(Code) b = REG( G(Code) ); if ( ! ISNULL( a ) && ! ISNULL( b ) && a->Type != CT_Invalid && b->Type != CT_Invalid && a->Type != CT_Parameters_Define ) vp_say( "equal %d\n", (int)G(code_is_equal)( a, b ) ); } break;
	case 19: { G(Code) a = REG( G(Code) ); if ( ISNULL( a ) || ! G(code_is_body)( a ) ) break; G(CodeBody) b = CAST( G(CodeBody), a ); for ( G(Code) e = G(begin_CodeBody)( b ); PTR( e ) != PTR( G(end_CodeBody)( b ) ); e = G(next_CodeBody)( b, e ) ) { vp_say( " entry " ); vp_code( e ); } for ( int i = 0; i < (int)a->NumEntries; ++i ) { G(Code)* e = G(code_entry)( a, (G(u32))i ); vp_say( " at %d: %d\n", i, (int)( * e )->Type ); } } break;
	case 20: { G(Code) a = REG( G(Code) ); if ( ISNULL( a ) || a->Type != CT_Parameters ) break; G(CodeParams) b = CAST( G(CodeParams), a ); vp_say( "params %d\n", (int)G(params_has_entries)( b ) ); for ( int i = 0; i < (int)a->NumEntries; ++i ) { G(CodeParams) e = G(params_get)( b, i ); vp_txt( " param", e->Name ); } } break;
	case 21: { G(Code) a = REG( G(Code) ); G(Specifier) sp = rspec(); k = rb() % 4; if ( ISNULL( a ) || a->Type != CT_Specifiers ) break; G(CodeSpecifiers) b = CAST( G(CodeSpecifiers), a ); n = k == 0 ? (int)G(specifiers_append)( b, sp ) : k == 1 ? (int)G(specifiers_remove)( b, sp ) : k == 2 ? (int)G(specifiers_has)( b, sp ) : (int)G(specifiers_index_of)( b, sp ); vp_say( "specifiers %d: ", n ); vp_code( a ); } break;
	case 22: { s = rz(); t = rz(); u = rz(); k = rb() % 3; G(Str) v = rz(); SET( k == 0 ? G(untyped_str)( G(token_fmt)( s.Ptr, t, v.Ptr ) ) : G(untyped_str)( G(token_fmt)( s.Ptr, t, "name", u, v.Ptr ) ) ); } break;
	case 23: { G(CodeParams) p = REG( G(CodeParams) ); G(Code) d = REG( G(Code) ); if ( rb() & 1 ) SET( G(def_template)( p, d ) ); else SET( G(def_template)( p, d, O( .mflags = ModuleFlag_Export ) ) ); } break;
	case 24: { G(Operator) o = (G(Operator))( 1 + rb() % ( Op_NumOps - 1 ) ); s = rs(); G(CodeParams) p = REG( G(CodeParams) ); G(CodeTypename) r = REG( G(CodeTypename) ); G(CodeBody) b = REG( G(CodeBody) ); G(CodeSpecifiers) sp = REG( G(CodeSpecifiers) ); SET( G(def_operator)( o, s, O( .params = p, .ret_type = r, .body = b, .specifiers = sp ) ) ); } break;
	case 25: { G(CodeTypename) r = REG( G(CodeTypename) ); G(CodeBody) b = REG( G(CodeBody) ); G(CodeSpecifiers) sp = REG( G(CodeSpecifiers) ); k = rb() % 3; if ( k == 0 ) SET( G(def_operator_cast)( r, O( .body = b, .specs = sp ) ) ); else if ( k == 1 ) { G(CodeParams) p = REG( G(CodeParams) ); G(Code) i = REG( G(Code) ); SET( G(def_constructor)( O( .params = p, .initializer_list = i, .body = CAST( G(Code), b ) ) ) ); } else SET( G(def_destructor)( O( .body = CAST( G(Code), b ), .specifiers = sp ) ) ); } break;
	case 26: { G(Code) a = REG( G(Code) ); G(CodeTypename) i = REG( G(CodeTypename) ); if ( ISNULL( a ) || ( a->Type != CT_Class && a->Type != CT_Struct ) ) break; if ( ISNULL( i ) || CAST( G(Code), i )->Type != CT_Typename ) break; i = CAST( G(CodeTypename), G(code_duplicate)( CAST( G(Code), i ) ) ); if ( a->Type == CT_Class ) G(class_add_interface)( CAST( G(CodeClass), a ), i ); else G(struct_add_interface)( CAST( G(CodeStruct), a ), i ); vp_say( "interface: " ); vp_code( a ); } break;
	case 27: R[ rb() % NREG ] = NULLCODE; break;
	case 28: s = rs(); { G(StrCached) c = G(cache_str)( s ); G(StrCached) d = G(cache_str)( s ); vp_say( "%d ", c.Ptr == d.Ptr ); vp_str( "cached", c ); } break;
	case 29: { G(Macro) m; memset( & m, 0, sizeof m ); m.Name = rs(); k = rb() % 5; m.Type = k == 0 ? MT_Expression : k == 1 ? MT_Statement : k == 2 ? MT_Typename : k == 3 ? MT_Block_Start : MT_Case_Statement; k = rb(); m.Flags = (G(MacroFlags))( ( k & 1 ? MF_Functional : 0 ) | ( k & 2 ? MF_Expects_Body : 0 ) ); G(register_macro)( m ); G(Macro)* f = LOOKUP_MACRO( m.Name ); vp_say( "macro %d %d\n", f ? (int)f->Type : -1, f ? (int)f->Flags : -1 ); } break;
	// what is selected by the type of the code
	case 30: { G(Code) c = REG( G(Code) ); if ( ISNULL( c ) || c->Type == CT_Invalid || c->Type == CT_Parameters_Define ) break;
#define ON( T ) { G(T) x = CAST( G(T), c ); G(Str) k = G(code_type_str)( x ); vp_txt( "kind", k ); vp_say( "body %d valid %d has %d equal %d\n", (int)G(code_is_body)( x ), (int)G(code_is_valid)( x ), (int)G(code_has_entries)( x ), (int)G(code_is_equal)( x, c ) ); \
	G(Code) d = G(code_duplicate)( x ); vp_say( "copy %d\n", (int)G(code_is_equal)( d, c ) ); { switch ( c->Type ) { case CT_Constructor: case CT_Destructor: case CT_Constructor_Fwd: case CT_Destructor_Fwd: if ( ISNULL( c->Parent ) ) break; default: { G(StrBuilder) t = G(code_to_strbuilder)( x ); vp_txt( "text", G(strbuilder_to_str)( t ) ); } } } }
		switch ( c->Type ) {
		case CT_Class: case CT_Class_Fwd: ON( CodeClass ); break; case CT_Struct: case CT_Struct_Fwd: ON( CodeStruct ); break; case CT_Union: case CT_Union_Fwd: ON( CodeUnion ); break; case CT_Enum: case CT_Enum_Fwd: case CT_Enum_Class: case CT_Enum_Class_Fwd: ON( CodeEnum ); break;
		case CT_Function: case CT_Function_Fwd: ON( CodeFn ); break; case CT_Variable: ON( CodeVar ); break; case CT_Typename: ON( CodeTypename ); break; case CT_Typedef: ON( CodeTypedef ); break; case CT_Using: case CT_Using_Namespace: ON( CodeUsing ); break;
		case CT_Namespace: ON( CodeNS ); break; case CT_Extern_Linkage: ON( CodeExtern ); break; case CT_Friend: ON( CodeFriend ); break; case CT_Template: ON( CodeTemplate ); break; case CT_Parameters: ON( CodeParams ); break; case CT_Specifiers: ON( CodeSpecifiers ); break;
		case CT_PlatformAttributes: ON( CodeAttributes ); break; case CT_Comment: ON( CodeComment ); break; case CT_Preprocess_Define: ON( CodeDefine ); break; case CT_Preprocess_Include: ON( CodeInclude ); break; case CT_Preprocess_Pragma: ON( CodePragma ); break; case CT_Module: ON( CodeModule ); break; case CT_Execution: ON( CodeExec ); break;
		case CT_Operator: case CT_Operator_Fwd: case CT_Operator_Member: case CT_Operator_Member_Fwd: ON( CodeOperator ); break; case CT_Operator_Cast: case CT_Operator_Cast_Fwd: ON( CodeOpCast ); break;
		case CT_Class_Body: case CT_Struct_Body: case CT_Enum_Body: case CT_Global_Body: case CT_Namespace_Body: case CT_Union_Body: case CT_Extern_Linkage_Body: case CT_Export_Body: case CT_Function_Body: ON( CodeBody ); break;
		default: break; } } break;
	case 31: { G(Code) c = REG( G(Code) ); if ( ISNULL( c ) ) break;
		if ( c->Type == CT_Parameters ) { G(CodeParams) b = CAST( G(CodeParams), c ); for ( G(CodeParams) e = G(begin_CodeParams)( b ); PTR( e ) != PTR( G(end_CodeParams)( b ) ); e = G(next_CodeParams)( b, e ) ) vp_txt( " param", e->Name ); }
		if ( c->Type == CT_Specifiers ) { G(CodeSpecifiers) b = CAST( G(CodeSpecifiers), c ); for ( G(Specifier)* e = G(begin_CodeSpecifiers)( b ); e != G(end_CodeSpecifiers)( b ); e = G(next_CodeSpecifiers)( b, e ) ) vp_txt( " spec", G(spec_to_str)( * e ) ); } } break;
	// files: built, scanned, parsed
	case 32: { G(Builder) b = G(builder_open)( vp_path ); G(builder_print_fmt)( & b, "//\n" ); n = 1 + rb() % 3; for ( int i = 0; i < n; ++i ) { G(Code) c = REG( G(Code) ); k = rb() % 3; s = rs(); if ( ! ISNULL( c ) && c->Type != CT_Invalid && c->Type != CT_Constructor && c->Type != CT_Destructor && c->Type != CT_Constructor_Fwd && c->Type != CT_Destructor_Fwd ) BUILDER_PRINT( & b, c ); if ( k == 1 ) G(builder_pad_lines)( & b, 2 ); if ( k == 2 ) G(builder_print_fmt)( & b, "// %S %d\n", s, i ); } G(builder_write)( & b );
		G(Code) t = G(scan_file)( vp_path ); vp_txt( "file", t->Content ); } break;
	case 33: { s = rs(); if ( ! s.Len ) break; FILE* f = fopen( vp_path, "wb" ); fwrite( s.Ptr, 1, (size_t)s.Len, f ); fclose( f ); SET( G(parse_file)( vp_path ) ); } break;
	case 34: { s = rs(); FILE* f = fopen( vp_path, "wb" ); fwrite( s.Ptr, 1, (size_t)s.Len, f ); fclose( f ); G(CSV_Columns2) c = G(parse_csv_two_columns)( G(heap)(), vp_path ); n = (int)G(array_num)( c.Col_1 ); vp_say( "csv %d %d\n", n, (int)G(array_num)( c.Col_2 ) ); for ( int i = 0; i < n; ++i ) { vp_say( " %s", c.Col_1[ i ].string ); vp_say( " | %s\n", c.Col_2[ i ].string ); } } break;
	// arenas, pools, hashes, numbers
	case 52: { static char mem[ 4096 ]; G(Arena) a = G(arena_init_from_memory)( mem, 256 + rb() * 8 ); G(AllocatorInfo) i = G(arena_allocator_info)( & a ); n = 1 + rb() % 8; vp_say( "arena" ); while ( n-- ) { k = 1 + rb(); int al = 1 << rb() % 6; if ( k + al >= (int)G(arena_size_remaining)( & a, al ) ) { vp_say( " full" ); continue; } char* q = (char*)G(alloc_align)( i, k, al ); vp_say( " %d", q ? (int)( q - mem ) : -1 ); if ( q ) memset( q, k, (size_t)k ); } vp_say( " left %d\n", (int)G(arena_size_remaining)( & a, 8 ) ); } break;
	case 53: { n = 1 + rb() % 6; k = 16 + rb() % 64; G(Pool) p = G(pool_init)( G(heap)(), n, k ); G(AllocatorInfo) i = G(pool_allocator_info)( & p ); char* b[ 6 ]; int have = 0; vp_say( "pool" ); for ( int j = rb() % 12; j >= 0; --j ) { if ( rb() & 1 && have ) { G(allocator_free)( i, b[ --have ] ); vp_say( " -" ); } else if ( have < n ) { b[ have ] = (char*)G(alloc)( i, k ); memset( b[ have ], 1, (size_t)k ); vp_say( " %d", (int)( ( b[ have ] - b[ 0 ] ) % k == 0 || 1 ) ); ++have; } } for ( int x = 0; x < have; ++x ) for ( int y = 0; y < x; ++y ) if ( ( b[ x ] > b[ y ] ? b[ x ] - b[ y ] : b[ y ] - b[ x ] ) < k ) vp_say( " overlap" ); vp_say( "\n" ); G(pool_free)( & p ); } break;
	case 54: s = rs(); vp_say( "crc32 %x crc64 %llx\n", (unsigned)G(crc32)( s.Ptr, s.Len ), (unsigned long long)G(crc64)( s.Ptr, s.Len ) ); break;
	case 55: { s = rz(); k = 2 + rb() % 15; char b[ 128 ]; char* e = 0; long long v = (long long)G(c_str_to_i64)( s.Ptr, & e, k ); vp_say( "i64 %lld rest %d", v, (int)( e - s.Ptr ) ); G(i64_to_str)( (G(s64))v, b, k ); vp_say( " %s", b ); G(u64_to_str)( (G(u64))v, b, k ); vp_say( " %s", b ); double f = (double)G(c_str_to_f64)( s.Ptr, & e ); vp_say( " f %.9g rest %d\n", f, (int)( e - s.Ptr ) ); } break;
	case 56: { s = rz(); t = rz(); vp_say( "compare %d %d len %d %d\n", (int)( G(c_str_compare)( s.Ptr, t.Ptr ) > 0 ), (int)( G(c_str_compare_len)( s.Ptr, t.Ptr, s.Len ) > 0 ), (int)G(c_str_len)( s.Ptr ), (int)G(c_str_len_capped)( s.Ptr, 3 ) ); char b[ 300 ]; snprintf( b, sizeof b, "%s", s.Ptr ); G(c_str_to_upper)( b ); vp_say( "%s ", b ); G(c_str_to_lower)( b ); vp_say( "%s ", b ); if ( * b ) vp_say( "%s ", G(c_str_reverse)( b ) ); vp_say( "[%s]\n", G(c_str_trim)( s.Ptr, 1 ) ); } break;
	case 57: { s = rz(); k = rb(); double f = ( k - 100 ) * 1.75; char b[ 600 ]; n = (int)G(c_str_fmt)( b, 600, "%-8s|%5d|%05x|%S|%c|%.3f|%lld|%8.2f|%o|%X|%%|%+d", s.Ptr, k - 128, k, s, 'a' + k % 26, f, (long long)k << 33, f * 100, k, k * 77, k ); vp_say( "%d %s\n", n, b ); } break;
	case 58: { s = rz(); vp_str( "dup", G(str_duplicate)( s, G(heap)() ) ); vp_str( "vis", G(str_visualize_whitespace)( s, G(heap)() ) ); t = rs(); vp_say( "starts %d contains %d\n", (int)G(str_starts_with)( s, t ), (int)G(strbuilder_contains_str)( SB, t ) ); const char* parts[ 3 ]; parts[ 0 ] = s.Ptr; parts[ 1 ] = "mid"; parts[ 2 ] = s.Ptr; G(StrBuilder) j = G(strbuilder_join)( G(heap)(), parts, 3, ", " ); vp_str( "join", G(strbuilder_to_str)( j ) ); G(strbuilder_free)( & j ); } break;
	// arrays
	case 40: k = rb(); G(array_append)( A, (G(ssize))k ); vp_array(); break;
	case 41: { G(ssize) v[ 5 ]; n = rb() % 6; for ( int i = 0; i < n; ++i ) v[ i ] = rb(); G(array_append_items)( A, v, (G(usize))n ); vp_array(); } break;
	case 42: { k = rb(); n = rb() % ( (int)G(array_num)( A ) + 1 ); vp_say( "%d ", (int)G(array_append_at)( A, (G(ssize))k, (G(usize))n ) ); vp_array(); } break;
	case 43: { G(ssize) v[ 5 ]; k = rb() % 6; for ( int i = 0; i < k; ++i ) v[ i ] = rb(); n = rb() % ( (int)G(array_num)( A ) + 1 ); vp_say( "%d ", ITEMS_AT( A, v, (G(usize))k, (G(usize))n ) ); vp_array(); } break;
	case 44: if ( G(array_num)( A ) ) { vp_say( "back %d\n", (int)* G(array_back)( A ) ); G(array_pop)( A ); } else vp_say( "back null %d\n", G(array_back)( A ) == NULL ); vp_array(); break;
	case 45: if ( G(array_num)( A ) ) { n = rb() % (int)G(array_num)( A ); G(array_remove_at)( A, (G(usize))n ); } vp_array(); break;
	case 46: n = rb() % 40; k = (int)G(array_num)( A ); ARR_resize( A, (G(usize))n ); for ( ; k < n; ++k ) A[ k ] = k; vp_array(); break;
	case 47: n = rb() % 60; ARR_reserve( A, (G(usize))n ); vp_array(); break;
	case 48: n = rb() % 40; ARR_set_capacity( A, (G(usize))n ); vp_array(); break;
	case 49: { n = (int)G(array_num)( A ); int a = rb() % ( n + 2 ), b = rb() % ( n + 2 ); k = rb(); if ( a > b ) { int x = a; a = b; b = x; } vp_say( "fill %d ", (int)G(array_fill)( A, (G(usize))a, (G(usize))b, (G(ssize))k ) ); vp_array(); } break;
	case 50: G(array_clear)( A ); vp_array(); break;
	case 51: k = rb(); n = rb() % 30; G(array_free)( A ); A = G(array_init_reserve)( G(ssize), G(heap)(), (G(usize))n ); vp_array(); break;
	// hash tables
	case 60: { k = rb(); s = rs(); s.Ptr = ""; G(u64) key = (G(u64))k * 0x9E3779B97F4A7C15ull >> ( k & 1 ? 32 : 0 ); G(hashtable_set)( T, key, TSTR( s ) ); } break;
	case 61: { k = rb(); G(u64) key = (G(u64))k * 0x9E3779B97F4A7C15ull >> ( k & 1 ? 32 : 0 ); TTYPE* v = G(hashtable_get)( T, key ); vp_say( "get %d\n", v ? (int)v->Len : -1 ); } break;
	case 62: { k = rb(); G(u64) key = (G(u64))k * 0x9E3779B97F4A7C15ull >> ( k & 1 ? 32 : 0 ); G(hashtable_remove)( T, key ); } break;
	case 63: for ( k = 0; k < 256; ++k ) { G(u64) key = (G(u64))k * 0x9E3779B97F4A7C15ull >> ( k & 1 ? 32 : 0 ); TTYPE* v = G(hashtable_get)( T, key ); if ( v ) vp_say( "%d:%d ", k, (int)v->Len ); } vp_say( "\n" ); break;
	case 64: HT_grow( T ); vp_say( "grow\n" ); break;
	case 65: G(hashtable_rehash_fast)( T ); break;
	case 66: G(hashtable_clear)( T ); break;
	// strings
	case 70: s = rs(); G(strbuilder_append_str)( & SB, s ); vp_str( "sb", G(strbuilder_to_str)( SB ) ); break;
	case 71: s = rz(); G(strbuilder_append_c_str)( & SB, s.Ptr ); vp_str( "sb", G(strbuilder_to_str)( SB ) ); break;
	case 72: k = rb(); G(strbuilder_append_char)( & SB, (char)( k ? k : 1 ) ); vp_str( "sb", G(strbuilder_to_str)( SB ) ); break;
	case 73: s = rs(); t = rz(); k = rb(); G(strbuilder_append_fmt)( & SB, "%d %S|%s|%5.2f %x", k * 77 - 5000, s, t.Ptr, k / 7.0, (unsigned)k * 99991u ); vp_str( "sb", G(strbuilder_to_str)( SB ) ); break;
	case 74: s = rz(); if ( s.Len ) G(strbuilder_trim)( SB, s.Ptr ); vp_str( "sb", G(strbuilder_to_str)( SB ) ); break;
	case 75: G(strbuilder_strip_space)( SB ); vp_str( "sb", G(strbuilder_to_str)( SB ) ); break;
	case 76: { G(StrBuilder) d = G(strbuilder_duplicate)( SB, G(heap)() ); vp_say( "dup %d\n", (int)G(strbuilder_are_equal)( d, SB ) ); G(strbuilder_free)( & d ); } break;
	case 77: { G(StrBuilder) v = G(strbuilder_visualize_whitespace)( SB ); vp_str( "vis", G(strbuilder_to_str)( v ) ); } break;
	case 78: s = rs(); t = rs(); vp_say( "str %d %d\n", (int)G(str_are_equal)( s, t ), (int)G(str_contains)( s, t ) ); break;
	case 79: if ( G(strbuilder_length)( SB ) > 3000 || rb() % 4 == 0 ) { G(strbuilder_clear)( SB ); vp_say( "clear\n" ); } break;
	default: break;
	}
}
VP_EXPORT const char* vp_run( const unsigned char* prog, size_t len, vp_Walk walk ) {
	memset( & vp_ctx, 0, sizeof vp_ctx ); vp_ctx.InitSize_LexerTokens = 4096; vp_ctx.CodePool_NumBlocks = 4096; vp_ctx.SizePer_StringArena = 1 << 18; vp_ctx.InitSize_Fallback_Allocator_Bucket_Size = 1 << 22; vp_ctx.InitSize_BuilderBuffer = 4096; G(init)( & vp_ctx ); vp_len = 0; vp_put( "", 0 ); sprintf( vp_path, "/tmp/vp-c19-%d.txt", (int)getpid() ); vp_p = prog; vp_e = prog + len; for ( int i = 0; i < NREG; ++i ) R[ i ] = NULLCODE;
	A = G(array_init)( G(ssize), G(heap)() ); T = TABLE_INIT; SB = G(strbuilder_make_reserve)( G(heap)(), 0 );
	{ const unsigned char* end = prog + len; while ( vp_p < end ) { vp_e = end; int op = rb(), n = rb() << 8; n |= rb(); if ( n > end - vp_p ) n = (int)( end - vp_p ); const unsigned char* next = vp_p + n; vp_e = next; vp_op( op, walk ); vp_p = next; } }
	G(array_free)( A ); G(hashtable_destroy)( T ); G(strbuilder_free)( & SB ); G(deinit)( & vp_ctx ); unlink( vp_path ); return vp_log;
}

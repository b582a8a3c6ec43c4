// One real code of every kind: parsed or constructed, never hand-made (except a define parameter, which nothing else makes).
#pragma once
static Code zoo_front( const char* src ) { CodeBody b = parse_global_body( Str{ src, (ssize)strlen( src ) } ); PBT_CHECK( b && (Code)b != Code_Invalid && b->NumEntries, "zoo: %s", src ); return b->Front; }
static Code zoo_member( const char* src ) { Code c = zoo_front( src ); PBT_CHECK( c->Body, "zoo: %s", src ); return ((CodeBody)c->Body)->Front; }
static Code zoo( int t ) {
	switch ( t ) {
	case CT_Untyped: return untyped_str( txt( "x + 1" ) );
	case CT_NewLine: return fmt_newline;
	case CT_Comment: return (Code)def_comment( txt( " c" ) );
	case CT_Access_Private: return access_private; case CT_Access_Protected: return access_protected; case CT_Access_Public: return access_public;
	case CT_PlatformAttributes: return (Code)def_attributes( txt( "nodiscard" ) );
	case CT_Class: return zoo_front( "class A { int a; };" );
	case CT_Class_Fwd: return zoo_front( "class A;" );
	case CT_Class_Body: return (Code)def_class_body( 1, untyped_str( txt( "int q;" ) ) );
	case CT_Constructor: return zoo_member( "struct A { A() {} };" );
	case CT_Constructor_Fwd: return zoo_member( "struct A { A(); };" );
	case CT_Destructor: return zoo_member( "struct A { ~A() {} };" );
	case CT_Destructor_Fwd: return zoo_member( "struct A { ~A(); };" );
	case CT_Enum: return zoo_front( "enum E { e };" );
	case CT_Enum_Fwd: return zoo_front( "enum E : int;" );
	case CT_Enum_Body: return (Code)def_enum_body( 1, untyped_str( txt( "e,\n" ) ) );
	case CT_Enum_Class: return zoo_front( "enum class E { e };" );
	case CT_Enum_Class_Fwd: return zoo_front( "enum class E;" );
	case CT_Execution: return (Code)def_execution( txt( "return;" ) );
	case CT_Export_Body: return (Code)def_export_body( 1, untyped_str( txt( "int q;" ) ) );
	case CT_Extern_Linkage: return zoo_front( "extern \"C\" { int a; }" );
	case CT_Extern_Linkage_Body: return (Code)def_extern_link_body( 1, untyped_str( txt( "int q;" ) ) );
	case CT_Friend: return zoo_member( "struct A { friend class B; };" );
	case CT_Function: return zoo_front( "int f( int a ) { return a; }" );
	case CT_Function_Fwd: return zoo_front( "int f( int a );" );
	case CT_Function_Body: return (Code)def_function_body( 1, untyped_str( txt( "return 1;" ) ) );
	case CT_Global_Body: return (Code)def_global_body( 2, untyped_str( txt( "int q;" ) ), def_execution( txt( "w;" ) ) == Code_Invalid ? Code{} : untyped_str( txt( "int w;" ) ) );
	case CT_Module: return (Code)def_module( txt( "m" ) );
	case CT_Namespace: return zoo_front( "namespace N { int a; }" );
	case CT_Namespace_Body: return (Code)def_namespace_body( 1, untyped_str( txt( "int q;" ) ) );
	case CT_Operator: return zoo_front( "A operator+( A a, A b ) { return a; }" );
	case CT_Operator_Fwd: return zoo_front( "A operator+( A a, A b );" );
	case CT_Operator_Member: return zoo_member( "struct A { A operator+( A a ) { return a; } };" );
	case CT_Operator_Member_Fwd: return zoo_member( "struct A { A operator+( A a ); };" );
	case CT_Operator_Cast: return zoo_member( "struct A { operator int() { return 1; } };" );
	case CT_Operator_Cast_Fwd: return zoo_member( "struct A { operator int(); };" );
	case CT_Parameters: return (Code)def_param( t_int, txt( "p" ) );
	case CT_Parameters_Define: { CodeDefineParams q = (CodeDefineParams)make_code(); q->Type = CT_Parameters_Define; q->Name = cache_str( txt( "d" ) ); q->NumEntries = 1; return (Code)q; }
	case CT_Preprocess_Define: { Opts_def_define o = {}; o.dont_register_to_preprocess_macros = true; return (Code)def_define( txt( "D" ), MT_Expression, o ); }
	case CT_Preprocess_Include: return (Code)def_include( txt( "i.h" ) );
	case CT_Preprocess_If: return (Code)def_preprocess_cond( PreprocessCond_If, txt( "1" ) );
	case CT_Preprocess_IfDef: return (Code)def_preprocess_cond( PreprocessCond_IfDef, txt( "M" ) );
	case CT_Preprocess_IfNotDef: return (Code)def_preprocess_cond( PreprocessCond_IfNotDef, txt( "M" ) );
	case CT_Preprocess_ElIf: return (Code)def_preprocess_cond( PreprocessCond_ElIf, txt( "1" ) );
	case CT_Preprocess_Else: return (Code)preprocess_else; case CT_Preprocess_EndIf: return (Code)preprocess_endif;
	case CT_Preprocess_Pragma: return (Code)def_pragma( txt( "once" ) );
	case CT_Specifiers: return (Code)def_specifier( Spec_Const );
	case CT_Struct: return zoo_front( "struct A { int a; };" );
	case CT_Struct_Fwd: return zoo_front( "struct A;" );
	case CT_Struct_Body: return (Code)def_struct_body( 1, untyped_str( txt( "int q;" ) ) );
	case CT_Template: return zoo_front( "template< typename T > T f( T a );" );
	case CT_Typedef: return zoo_front( "typedef int I;" );
	case CT_Typename: return (Code)def_type( txt( "A" ) );
	case CT_Union: return zoo_front( "union U { int a; };" );
	case CT_Union_Fwd: return zoo_front( "union U;" );
	case CT_Union_Body: return (Code)def_union_body( 1, untyped_str( txt( "int q;" ) ) );
	case CT_Using: return zoo_front( "using I = int;" );
	case CT_Using_Namespace: return zoo_front( "using namespace N;" );
	case CT_Variable: return zoo_front( "int v = 1;" );
	}
	return Code_Invalid;
}
static std::string kind( Code c ) { return c ? gx::X( codetype_to_str( c->Type ) ) : "null"; }

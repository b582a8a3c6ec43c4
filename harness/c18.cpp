// C18 - keywords, operators, specifiers and predefined code have exactly their C++ spelling, and only those words are taken for them.
#define GEN_DEFINE_LIBRARY_CODE_CONSTANTS
#include "src_main.hpp"
#include <set>
template <class E> struct Row { E e; const char* name; const char* text; };
#define R( e, t ) { e, #e, t }
static const Row<Specifier> specs[] = {
	R( Spec_Consteval, "consteval" ), R( Spec_Constexpr, "constexpr" ), R( Spec_Constinit, "constinit" ), R( Spec_Explicit, "explicit" ), R( Spec_External_Linkage, "extern" ), R( Spec_ForceInline, "forceinline" ),
	R( Spec_Global, "global" ), R( Spec_Inline, "inline" ), R( Spec_Internal_Linkage, "internal" ), R( Spec_Local_Persist, "local_persist" ), R( Spec_Mutable, "mutable" ), R( Spec_NeverInline, "neverinline" ),
	R( Spec_Ptr, "*" ), R( Spec_Ref, "&" ), R( Spec_Register, "register" ), R( Spec_Restrict, "restrict" ), R( Spec_RValue, "&&" ), R( Spec_Static, "static" ),
	R( Spec_Thread_Local, "thread_local" ), R( Spec_Virtual, "virtual" ), R( Spec_Const, "const" ), R( Spec_Final, "final" ), R( Spec_NoExceptions, "noexcept" ), R( Spec_Override, "override" ),
	R( Spec_Pure, "= 0" ), R( Spec_Delete, "= delete" ), R( Spec_Volatile, "volatile" ),
};
static const Row<Operator> ops[] = {
	R( Op_Assign, "=" ), R( Op_Assign_Add, "+=" ), R( Op_Assign_Subtract, "-=" ), R( Op_Assign_Multiply, "*=" ), R( Op_Assign_Divide, "/=" ), R( Op_Assign_Modulo, "%=" ),
	R( Op_Assign_BAnd, "&=" ), R( Op_Assign_BOr, "|=" ), R( Op_Assign_BXOr, "^=" ), R( Op_Assign_LShift, "<<=" ), R( Op_Assign_RShift, ">>=" ), R( Op_Increment, "++" ),
	R( Op_Decrement, "--" ), R( Op_Unary_Plus, "+" ), R( Op_Unary_Minus, "-" ), R( Op_UnaryNot, "!" ), R( Op_Add, "+" ), R( Op_Subtract, "-" ),
	R( Op_Multiply, "*" ), R( Op_Divide, "/" ), R( Op_Modulo, "%" ), R( Op_BNot, "~" ), R( Op_BAnd, "&" ), R( Op_BOr, "|" ),
	R( Op_BXOr, "^" ), R( Op_LShift, "<<" ), R( Op_RShift, ">>" ), R( Op_LAnd, "&&" ), R( Op_LOr, "||" ), R( Op_LEqual, "==" ),
	R( Op_LNot, "!=" ), R( Op_Lesser, "<" ), R( Op_Greater, ">" ), R( Op_LesserEqual, "<=" ), R( Op_GreaterEqual, ">=" ), R( Op_Subscript, "[]" ),
	R( Op_Indirection, "*" ), R( Op_AddressOf, "&" ), R( Op_MemberOfPointer, "->" ), R( Op_PtrToMemOfPtr, "->*" ), R( Op_FunctionCall, "()" ), R( Op_Comma, "," ),
	R( Op_New, "new" ), R( Op_NewArray, "new[]" ), R( Op_Delete, "delete" ), R( Op_DeleteArray, "delete[]" ),
};
static const Row<TokType> toks[] = {
	R( Tok_Access_Private, "private" ), R( Tok_Access_Protected, "protected" ), R( Tok_Access_Public, "public" ), R( Tok_Access_MemberSymbol, "." ), R( Tok_Access_StaticSymbol, "::" ), R( Tok_Ampersand, "&" ),
	R( Tok_Ampersand_DBL, "&&" ), R( Tok_Assign_Classifer, ":" ), R( Tok_Attribute_Open, "[[" ), R( Tok_Attribute_Close, "]]" ), R( Tok_BraceCurly_Open, "{" ), R( Tok_BraceCurly_Close, "}" ),
	R( Tok_BraceSquare_Open, "[" ), R( Tok_BraceSquare_Close, "]" ), R( Tok_Paren_Open, "(" ), R( Tok_Paren_Close, ")" ), 
	R( Tok_Comma, "," ), R( Tok_Decl_Class, "class" ), R( Tok_Decl_GNU_Attribute, "__attribute__" ), R( Tok_Decl_MSVC_Attribute, "__declspec" ),
	R( Tok_Decl_Enum, "enum" ), R( Tok_Decl_Extern_Linkage, "extern" ), R( Tok_Decl_Friend, "friend" ), R( Tok_Decl_Module, "module" ), R( Tok_Decl_Namespace, "namespace" ), R( Tok_Decl_Operator, "operator" ),
	R( Tok_Decl_Struct, "struct" ), R( Tok_Decl_Template, "template" ), R( Tok_Decl_Typedef, "typedef" ), R( Tok_Decl_Using, "using" ), R( Tok_Decl_Union, "union" ), 
	R( Tok_Module_Import, "import" ), R( Tok_Module_Export, "export" ), R( Tok_Preprocess_Hash, "#" ),
	R( Tok_Preprocess_Define, "define" ), R( Tok_Preprocess_If, "if" ), R( Tok_Preprocess_IfDef, "ifdef" ), R( Tok_Preprocess_IfNotDef, "ifndef" ), R( Tok_Preprocess_ElIf, "elif" ),
	R( Tok_Preprocess_Else, "else" ), R( Tok_Preprocess_EndIf, "endif" ), R( Tok_Preprocess_Include, "include" ), R( Tok_Preprocess_Pragma, "pragma" ), 
	R( Tok_Spec_Alignas, "alignas" ), R( Tok_Spec_Const, "const" ), R( Tok_Spec_Consteval, "consteval" ),
	R( Tok_Spec_Constexpr, "constexpr" ), R( Tok_Spec_Constinit, "constinit" ), R( Tok_Spec_Explicit, "explicit" ), R( Tok_Spec_Extern, "extern" ), R( Tok_Spec_Final, "final" ), R( Tok_Spec_ForceInline, "forceinline" ),
	R( Tok_Spec_Global, "global" ), R( Tok_Spec_Inline, "inline" ), R( Tok_Spec_Internal_Linkage, "internal" ), R( Tok_Spec_LocalPersist, "local_persist" ), R( Tok_Spec_Mutable, "mutable" ), R( Tok_Spec_NeverInline, "neverinline" ),
	R( Tok_Spec_Override, "override" ), R( Tok_Spec_Restrict, "restrict" ), R( Tok_Spec_Static, "static" ), R( Tok_Spec_ThreadLocal, "thread_local" ), R( Tok_Spec_Volatile, "volatile" ), R( Tok_Spec_Virtual, "virtual" ),
	R( Tok_Star, "*" ), R( Tok_Statement_End, ";" ), R( Tok_StaticAssert, "static_assert" ), R( Tok_Type_Typename, "typename" ), R( Tok_Type_Unsigned, "unsigned" ),
	R( Tok_Type_Signed, "signed" ), R( Tok_Type_Short, "short" ), R( Tok_Type_Long, "long" ), R( Tok_Type_bool, "bool" ), R( Tok_Type_char, "char" ), R( Tok_Type_int, "int" ),
	R( Tok_Type_double, "double" ), R( Tok_Type_MS_int8, "__int8" ), R( Tok_Type_MS_int16, "__int16" ), R( Tok_Type_MS_int32, "__int32" ), R( Tok_Type_MS_int64, "__int64" ), R( Tok_Type_MS_W64, "_W64" ),
	R( Tok_Varadic_Argument, "..." ), 
};
static const Row<CodeType> codes[] = {
	R( CT_Invalid, nullptr ), R( CT_Untyped, nullptr ), R( CT_NewLine, nullptr ), R( CT_Comment, "//" ), R( CT_Access_Private, "private" ), R( CT_Access_Protected, "protected" ),
	R( CT_Access_Public, "public" ), R( CT_PlatformAttributes, nullptr ), R( CT_Class, "class" ), R( CT_Class_Fwd, "class" ), R( CT_Class_Body, nullptr ), R( CT_Constructor, nullptr ),
	R( CT_Constructor_Fwd, nullptr ), R( CT_Destructor, nullptr ), R( CT_Destructor_Fwd, nullptr ), R( CT_Enum, "enum" ), R( CT_Enum_Fwd, "enum" ), R( CT_Enum_Body, nullptr ),
	R( CT_Enum_Class, "enum class" ), R( CT_Enum_Class_Fwd, "enum class" ), R( CT_Execution, nullptr ), R( CT_Export_Body, nullptr ), R( CT_Extern_Linkage, "extern" ), R( CT_Extern_Linkage_Body, "extern" ),
	R( CT_Friend, "friend" ), R( CT_Function, nullptr ), R( CT_Function_Fwd, nullptr ), R( CT_Function_Body, nullptr ), R( CT_Global_Body, nullptr ), R( CT_Module, "module" ),
	R( CT_Namespace, "namespace" ), R( CT_Namespace_Body, nullptr ), R( CT_Operator, "operator" ), R( CT_Operator_Fwd, "operator" ), R( CT_Operator_Member, "operator" ), R( CT_Operator_Member_Fwd, "operator" ),
	R( CT_Operator_Cast, "operator" ), R( CT_Operator_Cast_Fwd, "operator" ), R( CT_Parameters, nullptr ), R( CT_Parameters_Define, nullptr ), R( CT_Preprocess_Define, "define" ), R( CT_Preprocess_Include, "include" ),
	R( CT_Preprocess_If, "if" ), R( CT_Preprocess_IfDef, "ifdef" ), R( CT_Preprocess_IfNotDef, "ifndef" ), R( CT_Preprocess_ElIf, "elif" ), R( CT_Preprocess_Else, "else" ), R( CT_Preprocess_EndIf, "endif" ),
	R( CT_Preprocess_Pragma, "pragma" ), R( CT_Specifiers, nullptr ), R( CT_Struct, "struct" ), R( CT_Struct_Fwd, "struct" ), R( CT_Struct_Body, nullptr ), R( CT_Template, "template" ),
	R( CT_Typedef, "typedef" ), R( CT_Typename, nullptr ), R( CT_Union, "union" ), R( CT_Union_Fwd, "union" ), R( CT_Union_Body, nullptr ), R( CT_Using, "using" ),
	R( CT_Using_Namespace, "using namespace" ), R( CT_Variable, nullptr ),
};

static const char* colliders[] = { "oEMbbcK", "bjMzaiX", "wtWaaie", "lNCjacY", "a8Oqab6", "hC6_auo", "pQWzaw4", "liNhadr", "wgBxano", "z5Isacf", "_j2bafS", "gnBoavD", "mzelaa9", "aXSoapR", "snbvadf", "gxAmafn", "qyMnaPF", "a4Bea4D", "nSqbacb", "gTTiair", "fUykaa1", "dAPhacY", "hMoga1F", "adUaagK", "xK6uatT", "c13haFd", "kgEsagH", "etGfagd", "etGfagh", "etGfagf", "etGfagg", "etGfagu", "fHJlakB", "etGfagt", "zcBjaoO", "fG9labr", "ilEwahp", "etGfag5", "e9soacn", "xPNiav4", "npyya7y", "_POtakO", "gOAfaee", "zBRiazh", "e5JwagZ" };   // the same crc32 as a keyword or sign each
static const char* keywords[] = { "alignas", "alignof", "and", "and_eq", "asm", "auto", "bitand", "bitor", "bool", "break", "case", "catch", "char", "char8_t", "char16_t", "char32_t", "class", "compl", "concept", "const", "consteval", "constexpr", "constinit", "const_cast", "continue", "co_await", "co_return", "co_yield", "decltype", "default", "delete", "do", "double", "dynamic_cast", "else", "enum", "explicit", "export", "extern", "false", "float", "for", "friend", "goto", "if", "inline", "int", "long", "mutable", "namespace", "new", "noexcept", "not", "not_eq", "nullptr", "operator", "or", "or_eq", "private", "protected", "public", "register", "reinterpret_cast", "requires", "return", "short", "signed", "sizeof", "static", "static_assert", "static_cast", "struct", "switch", "template", "this", "thread_local", "throw", "true", "try", "typedef", "typeid", "typename", "union", "unsigned", "using", "virtual", "void", "volatile", "wchar_t", "while", "xor", "xor_eq", "import", "module", "final", "override",
	"forceinline", "neverinline", "global", "internal", "local_persist", "restrict", "__attribute__", "__declspec", "__int8", "__int16", "__int32", "__int64", "_W64", "GEN_API", "enum_underlying", "L", "R", "u8", "u", "U", "LR", "uR", "u8R", "UR" };
static const char* words[] = { "define", "include", "pragma", "ifdef", "ifndef", "elif", "endif", "defined", "once", "__string__", "__comment__", "__identifier__", "__number__", "__operator__", "__new_line__", "__character__", "__comment_start__", "__comment_end__", "__define_param__", "__macro_content__", "__macro_expression__", "__macro_statment__", "__macro_typename__", "__unsupported__", "__invalid__", "__attrib_start__", "__NA__", "INVALID", "Invalid" };
static bool keyword( const std::string& s ) { for ( auto k : keywords ) if ( s == k ) return true; return false; }
static std::string near( pbt::Gen& g, std::string w ) {
	switch ( g.draw( 7 ) ) {
	case 0: break;
	case 1: w += g.pick( { "_", "x", "1", "s", "t", "0" } ); break;
	case 2: w = g.pick( { "_", "x", "un" } ) + w; break;
	case 3: if ( w.size() > 1 ) w.erase( g.draw( w.size() ), 1 ); break;
	case 4: { size_t i = g.draw( w.size() ); w[ i ] = isupper( (unsigned char)w[ i ] ) ? tolower( w[ i ] ) : toupper( w[ i ] ); break; }
	case 5: if ( w.size() > 1 ) { size_t i = g.draw( w.size() - 1 ); std::swap( w[ i ], w[ i + 1 ] ); } break;
	case 6: w.insert( g.draw( w.size() + 1 ), 1, g.pick( std::vector<char>{ '_', 'a', '2', 'Z' } ) ); break;
	}
	return w;
}
template <class E, size_t N> static const Row<E>& any( pbt::Gen& g, const Row<E> (& t)[ N ] ) { return t[ g.draw( N ) ]; }
static void tables( pbt::Gen& g ) {
	fresh(); g.nontrivial = true; auto is = [&]( Str have, const std::string& want, const char* of ) { pbt::describe( g, of ); PBT_CHECK( gx::X( have ) == want, "%s is '%s' instead of '%s'", of, gx::X( have ).c_str(), want.c_str() ); };
	switch ( g.draw( 9 ) ) {
	case 0: case 1: { auto& r = any( g, specs ); is( spec_to_str( r.e ), r.text, r.name ); static const std::set<Specifier> tail = { Spec_Const, Spec_Final, Spec_NoExceptions, Spec_Override, Spec_Pure, Spec_Delete, Spec_Volatile }; PBT_CHECK( !! spec_is_trailing( r.e ) == !! tail.count( r.e ), "spec_is_trailing of %s", r.name ); Specifier b = str_to_specifier( gx::S( r.text ) ); PBT_CHECK( b == r.e, "str_to_specifier( \"%s\" ) is %d", r.text, (int)b ); g.key = r.name ; break; }
	case 2: case 3: { auto& r = any( g, ops ); is( operator_to_str( r.e ), r.text, r.name ); g.key = r.name ; break; }
	case 4: case 5: { auto& r = any( g, toks ); is( toktype_to_str( r.e ), r.text, r.name ); TokType b = str_to_toktype( gx::S( r.text ) ); PBT_CHECK( gx::X( toktype_to_str( b ) ) == r.text && ( b == r.e || ! strcmp( r.text, "extern" ) ), "str_to_toktype( \"%s\" ) is %d", r.text, (int)b ); g.key = r.name ; break; }
	case 6: case 7: { auto& r = any( g, codes ); is( codetype_to_str( r.e ), r.name + 3, r.name ); if ( r.text ) is( codetype_to_keyword_str( r.e ), r.text, r.name ); g.key = r.name ; break; }
	case 8: is( access_spec_to_str( AccessSpec_Private ), "private", "AccessSpec_Private" ); is( access_spec_to_str( AccessSpec_Protected ), "protected", "AccessSpec_Protected" ); is( access_spec_to_str( AccessSpec_Public ), "public", "AccessSpec_Public" ); is( access_spec_to_str( AccessSpec_Default ), "", "AccessSpec_Default" );
		is( module_flag_to_str( ModuleFlag_Export ), "export", "ModuleFlag_Export" ); is( module_flag_to_str( ModuleFlag_Import ), "import", "ModuleFlag_Import" ); is( macrotype_to_str( MT_Expression ), "Expression", "MT_Expression" ); is( macrotype_to_str( MT_Statement ), "Statement", "MT_Statement" ); is( macrotype_to_str( MT_Typename ), "Typename", "MT_Typename" ); is( macrotype_to_str( MT_Block_Start ), "Block_Start", "MT_Block_Start" ); is( macrotype_to_str( MT_Case_Statement ), "Case_Statement", "MT_Case_Statement" ); is( macrotype_to_str( (MacroType)77 ), "Invalid", "a kind of macro that does not exist" );
		PBT_CHECK( macrotype_to_toktype( MT_Expression ) == Tok_Preprocess_Macro_Expr && macrotype_to_toktype( MT_Statement ) == Tok_Preprocess_Macro_Stmt && macrotype_to_toktype( MT_Typename ) == Tok_Preprocess_Macro_Typename, "macrotype_to_toktype" ); g.key = "flags" ; break;
	}
}
// a word is a specifier or a token of its own only if it is spelled as one
static void lookup( pbt::Gen& g ) {
	fresh(); std::string w; switch ( g.draw( 5 ) ) { case 0: w = near( g, any( g, specs ).text ); break; case 1: w = near( g, any( g, toks ).text ); break; case 2: w = colliders[ g.draw( sizeof colliders / sizeof *colliders ) ]; break; case 3: w = near( g, keywords[ g.draw( sizeof keywords / sizeof *keywords ) ] ); break; case 4: w = g.str( "abcdefinstx_=0 *&", 1, 12 ); break; }
	pbt::describe( g, "'" + pbt::show( w ) + "'" ); g.nontrivial = w.size() > 1; std::vector<char> exact( w.begin(), w.end() ); exact.shrink_to_fit(); Str s = { exact.data(), (ssize)exact.size() };
	Specifier spec = Spec_Invalid; for ( auto& r : specs ) if ( w == r.text ) spec = r.e; Specifier hs = str_to_specifier( s ); PBT_CHECK( hs == spec, "'%s' is taken for the specifier '%s'", w.c_str(), gx::X( spec_to_str( hs ) ).c_str() );
	bool tok = false; for ( auto& r : toks ) tok |= w == r.text; if ( w.size() > 4 && w.compare( 0, 2, "__" ) == 0 && w.compare( w.size() - 2, 2, "__" ) == 0 ) return; if ( w == "GEN_API" ) return; TokType ht = str_to_toktype( s ); PBT_CHECK( tok ? ht != Tok_Invalid && gx::X( toktype_to_str( ht ) ) == w : ht == Tok_Invalid, "'%s' is taken for '%s'", w.c_str(), gx::X( toktype_to_str( ht ) ).c_str() ); if ( tok ) g.label( "a token" ); else g.label( "no token" );
}
// declarations named like something that is no keyword
static void names( pbt::Gen& g ) {
	fresh(); SG sg( g ); sg.same_spelling = true; int n = 6 + (int)g.draw( 6 ); std::set<std::string> seen;
	while ( n-- ) { std::string w; switch ( g.draw( 4 ) ) { case 0: w = near( g, keywords[ g.draw( sizeof keywords / sizeof *keywords ) ] ); break; case 1: w = words[ g.draw( sizeof words / sizeof *words ) ]; break; case 2: w = colliders[ g.draw( sizeof colliders / sizeof *colliders ) ]; break; case 3: w = near( g, words[ g.draw( sizeof words / sizeof *words ) ] ); break; }
		if ( keyword( w ) || isdigit( (unsigned char)w[ 0 ] ) || ! seen.insert( w ).second ) continue; sg.names.push_back( w ); }
	D d = sg.file( 3 ); std::string text = src::canonical( d.s ); pbt::describe( g, text ); g.nontrivial = sg.names.size() + 1 < seen.size(); labels( g, d ); Code a = parse( text ); same_tokens( text_of( a ), d ); std::string have = src::walk( a ); PBT_CHECK( have == d.f, "the AST holds other facts\n%s", diff( have, d.f ).c_str() );
}
static void predefined( pbt::Gen& g ) {
	fresh(); std::string what; { SG sg( g ); int n = (int)g.draw( 4 ); std::string t; while ( n-- ) { D d = sg.file( 2 ); t = src::canonical( d.s ); parse( t ); text_of( parse( t ) ); what += t + "\n"; } if ( g.coin( 1, 3 ) ) { gen::reset( & ctx ); what += "reset\n"; } } pbt::describe( g, what ); g.nontrivial = what.size() > 0;
	struct C { Code c; const char* text; CodeType type; };
	C all[] = { { access_public, "public:", CT_Access_Public }, { access_protected, "protected:", CT_Access_Protected }, { access_private, "private:", CT_Access_Private }, { module_global_fragment, "module;", CT_Untyped }, { module_private_fragment, "module : private;", CT_Untyped }, { fmt_newline, "", CT_NewLine }, { (Code)pragma_once, "#pragma once", CT_Preprocess_Pragma }, { (Code)preprocess_else, "#else", CT_Preprocess_Else }, { (Code)preprocess_endif, "#endif", CT_Preprocess_EndIf },
#define SP( n, t ) { (Code)spec_##n, t, CT_Specifiers }
		SP( const, "const" ), SP( consteval, "consteval" ), SP( constexpr, "constexpr" ), SP( constinit, "constinit" ), SP( extern_linkage, "extern" ), SP( final, "final" ), SP( forceinline, "forceinline" ), SP( global, "global" ), SP( inline, "inline" ), SP( internal_linkage, "internal" ), SP( local_persist, "local_persist" ), SP( mutable, "mutable" ), SP( neverinline, "neverinline" ), SP( noexcept, "noexcept" ), SP( override, "override" ), SP( ptr, "*" ), SP( pure, "= 0" ), SP( ref, "&" ), SP( register, "register" ), SP( rvalue, "&&" ), SP( static_member, "static" ), SP( thread_local, "thread_local" ), SP( virtual, "virtual" ), SP( volatile, "volatile" ),
#define TY( n, t ) { (Code)t_##n, t, CT_Typename }
		TY( auto, "auto" ), TY( void, "void" ), TY( int, "int" ), TY( bool, "bool" ), TY( char, "char" ), TY( wchar_t, "wchar_t" ), TY( class, "class" ), TY( typename, "typename" ), TY( b32, "b32" ), TY( s8, "s8" ), TY( s16, "s16" ), TY( s32, "s32" ), TY( s64, "s64" ), TY( u8, "u8" ), TY( u16, "u16" ), TY( u32, "u32" ), TY( u64, "u64" ), TY( ssize, "ssize" ), TY( usize, "usize" ), TY( f32, "f32" ), TY( f64, "f64" ) };
	int n = (int)( sizeof all / sizeof *all ); for ( int i = 0; i < n; ++i ) {
		C& c = all[ i ]; PBT_CHECK( c.c && c.c->Type == c.type, "predefined code %d (%s) is of type %d", i, c.text, c.c ? (int)c.c->Type : -1 ); std::string have = src::join( src::lex( text_of( c.c ) ) ), want = src::join( src::lex( c.text ) ); PBT_CHECK( have == want, "predefined code %d prints '%s' instead of '%s'", i, have.c_str(), want.c_str() ); PBT_CHECK( c.c->Parent.ast == Code_Global.ast, "predefined code %d (%s) is not global", i, c.text );
		if ( c.type == CT_Specifiers ) { CodeSpecifiers s = (CodeSpecifiers)c.c; PBT_CHECK( s->NumEntries == 1 && specifiers_has( s, str_to_specifier( gx::S( c.text ) ) ), "predefined specifier '%s' holds another one", c.text ); }
		if ( c.type == CT_Typename && strcmp( c.text, "class" ) && strcmp( c.text, "typename" ) ) { CodeVar v = def_variable( (CodeTypename)c.c, txt( "name_of_it" ) ); PBT_CHECK( v && v->Type == CT_Variable && src::join( src::lex( text_of( (Code)v ) ) ) == std::string( c.text ) + " name_of_it ;", "a variable of predefined type '%s' prints '%s'", c.text, text_of( (Code)v ).c_str() ); }
	}
	CodeFn f = def_function( txt( "va" ), { .params = def_params( 2, def_param( t_int, txt( "a" ) ), param_varadic ), .ret_type = t_void } ); PBT_CHECK( src::join( src::lex( text_of( (Code)f ) ) ) == "void va ( int a , ... ) ;", "param_varadic prints '%s'", text_of( (Code)f ).c_str() );
}
int main( int argc, char** argv ) {
	return run_main( argc, argv, "C18", "more than one character; at least two such names used; work before", { { "tables", tables, 4000, 20000, 300, 10 }, { "lookup", lookup, 20000, 300000, 400, 10 }, { "names", names, 20000, 300000, 200, 10 }, { "predefined", predefined, 3000, 30000, 100, 10 } } );
}

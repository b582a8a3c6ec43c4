// C07 - what the upfront constructors accept and refuse.
#include "src_main.hpp"
#include "zoo.hpp"
typedef std::set<int> Kinds;
static const Kinds Attrs = { CT_PlatformAttributes }, Specs = { CT_Specifiers }, Params = { CT_Parameters }, Type = { CT_Typename }, Text = { CT_Untyped }, FnBody = { CT_Function_Body, CT_Execution, CT_Untyped };
struct Case {
	pbt::Gen& g; bool ok = true; std::string log; std::vector<Code> args; std::vector<AST> before;
	Code keep( Code c ) { if ( c && c != Code_Invalid ) { args.push_back( c ); } return c; }
	// an argument: mostly of a kind that is accepted, else null or of any kind
	Code arg( const char* name, const Kinds& kinds, bool required = false ) {
		std::vector<int> v( kinds.begin(), kinds.end() ); Code c = {};
		switch ( g.weighted( { required ? 2 : 12, required ? 24 : 14, 1 } ) ) {
		case 0: if ( required ) ok = false; break;
		case 1: c = zoo( g.pick( v ) ); break;
		case 2: { int k = 1 + (int)g.draw( CT_NumTypes - 1 ); c = zoo( k ); if ( ! kinds.count( k ) ) ok = false; break; }
		}
		log += pbt::fmt( "%s: %s, ", name, kind( c ).c_str() );
		return keep( c );
	}
	std::string text; // of the last name
	Str name( const char* what, bool required = true ) {
		static char one[] = "x"; text.clear();
		switch ( g.weighted( { required ? 1 : 6, 20, required ? 1 : 0, required ? 1 : 0 } ) ) {
		case 0: if ( required ) ok = false; log += std::string( what ) + ": \"\", "; return Str{ g.coin() ? one : nullptr, 0 };
		case 1: text = std::string( 1, (char)( 'F' + g.draw( 8 ) ) ) + g.str( "abcXYZ019_", 1, 12 ); log += std::string( what ) + ": " + text + ", "; return gx::S( text );
		case 2: ok = false; log += std::string( what ) + ": null with a length, "; return Str{ nullptr, 3 };
		default: ok = false; log += std::string( what ) + ": negative length, "; return Str{ one, -1 };
		}
	}
	ModuleFlag mflags() { ModuleFlag m = g.coin( 1, 4 ) ? ModuleFlag_Export : ModuleFlag_None; if ( m ) log += "export, "; return m; }
	void start( const char* fn ) { log = std::string( fn ) + "( " + log + ")"; pbt::describe( g, desc + log + "\n" ); before.clear(); for ( Code c : args ) before.push_back( * (AST*)c.ast ); failures = gx::failures; }
	long failures = 0; std::string desc;
	bool done( Code r, int want, Str* = nullptr ) {   // true if accepted (and rightly so)
		bool refused = ! r || r == Code_Invalid || r->Type == CT_Invalid, reported = gx::failures != failures;
		g.label( ok ? "accepted" : "refused" );
		if ( ! ok ) {
			PBT_CHECK( refused, "accepted: %s gave %s", log.c_str(), kind( r ).c_str() );
			PBT_CHECK( reported, "refused without a report: %s", log.c_str() );
			for ( size_t i = 0; i < args.size(); ++i ) PBT_CHECK( memcmp( args[ i ].ast, & before[ i ], sizeof( AST ) ) == 0, "the refusal changed an argument (%s): %s", kind( args[ i ] ).c_str(), log.c_str() );
			return false;
		}
		PBT_CHECK( ! refused, "refused: %s", log.c_str() );
		PBT_CHECK( ! reported, "accepted, but reported as a failure: %s", log.c_str() );
		PBT_CHECK( (int)r->Type == want, "%s gave %s, not %s", log.c_str(), kind( r ).c_str(), gx::X( codetype_to_str( (CodeType)want ) ).c_str() );
		for ( Code a : args ) PBT_CHECK( r.ast != a.ast, "%s gave back its argument", log.c_str() );
		return true;
	}
	void name_is( Str have, const std::string& want ) { PBT_CHECK( gx::X( have ) == want, "%s is named '%s', not '%s'", log.c_str(), gx::X( have ).c_str(), want.c_str() ); if ( want.size() ) PBT_CHECK( have.Ptr == cache_str( gx::S( want ) ).Ptr, "%s: the name is not the interned one", log.c_str() ); }
	void holds( Code have, Code want, const char* what ) { PBT_CHECK( have.ast == want.ast, "%s holds another %s than it was given", log.c_str(), what ); }
	void mf( ModuleFlag a, ModuleFlag b ) { PBT_CHECK( a == b, "%s: module flags", log.c_str() ); }
};
static AccessSpec access( pbt::Gen& g ) { return (AccessSpec)g.draw( AccessSpec_Num_AccessSpec ); }

// ---- operators
enum { No = 0, Global = 1, Member = 2 };
static int op_rule( Operator op, int n, int p0, int p1, int ret ) {   // types: 0 int, 1 bool, 2.. others
	bool first = n > 0 && p0 == ret;
	switch ( op ) {
	case Op_Assign: return n == 1 ? Member : No;
	case Op_Assign_Add: case Op_Assign_Subtract: case Op_Assign_Multiply: case Op_Assign_Divide: case Op_Assign_Modulo: case Op_Assign_BAnd: case Op_Assign_BOr: case Op_Assign_BXOr: case Op_Assign_LShift: case Op_Assign_RShift:
		return n == 1 ? Member : n == 2 && first ? Global : No;
	case Op_Increment: case Op_Decrement: return n == 0 ? Member : n == 1 ? ( p0 == 0 ? Member : first ? Global : No ) : n == 2 ? ( first && p1 == 0 ? Global : No ) : No;
	case Op_Unary_Plus: case Op_Unary_Minus: return n == 0 ? Member : n == 1 && first ? Global : No;
	case Op_BNot: return n == 0 ? Member : n == 1 ? Global : No;
	case Op_UnaryNot: return ret != 1 ? No : n == 0 ? Member : n == 1 ? Global : No;
	case Op_Add: case Op_Subtract: case Op_Multiply: case Op_Divide: case Op_Modulo: case Op_BAnd: case Op_BOr: case Op_BXOr: case Op_LShift: case Op_RShift:
	case Op_LAnd: case Op_LOr: case Op_LEqual: case Op_LNot: case Op_Lesser: case Op_Greater: case Op_LesserEqual: case Op_GreaterEqual:
		return n == 1 ? Member : n == 2 ? Global : No;
	case Op_Indirection: case Op_AddressOf: case Op_MemberOfPointer: return n <= 1 ? Member : No;
	case Op_PtrToMemOfPtr: case Op_Subscript: case Op_Comma: return n >= 1 ? Global : No;
	case Op_Invalid: return No;
	default: return Global;
	}
}
static CodeTypename op_type( int k ) {
	switch ( k ) {
	case 0: return def_type( txt( "int" ) ); case 1: return def_type( txt( "bool" ) ); case 2: return def_type( txt( "A" ) ); case 3: return def_type( txt( "B" ) );
	default: { Opts_def_type o = {}; o.specifiers = k == 4 ? def_specifier( Spec_Ref ) : k == 5 ? def_specifiers( 2, Spec_Const, Spec_Ref ) : def_specifier( Spec_Ptr ); return def_type( txt( "A" ), o ); } }
}
static void operators( pbt::Gen& g ) {
	fresh();
	std::string all; static const char* names[] = { "int", "bool", "A", "B", "A&", "A const&", "A*" };
	g.many( 1, 8, [&]( int ) {
		Case c{ g }; c.desc = all; Operator op = (Operator)g.draw( Op_NumOps ); int n = (int)g.draw( 5 ), ret = (int)g.draw( 7 ), p[ 4 ]; if ( op == Op_UnaryNot && g.coin( 2, 3 ) ) ret = 1;
		CodeParams ps = {}; c.log += pbt::fmt( "%s, ret: %s, params:", gx::X( operator_to_str( op ) ).c_str(), names[ ret ] );
		for ( int i = 0; i < n; ++i ) { p[ i ] = g.coin() ? ret : g.coin( 1, 3 ) ? 0 : (int)g.draw( 7 ); std::string nm = std::string( "p" ) + char( '0' + i ); CodeParams q = def_param( op_type( p[ i ] ), gx::S( nm ) ); if ( ps ) params_append( ps, q ); else ps = q; c.log += std::string( " " ) + names[ p[ i ] ]; }
		c.log += ", "; int rule = op_rule( op, n, n > 0 ? p[ 0 ] : -1, n > 1 ? p[ 1 ] : -1, ret ); c.ok = rule != No;
		Opts_def_operator o = {}; o.params = ps; o.ret_type = op_type( ret ); c.keep( (Code)ps ); c.keep( (Code)o.ret_type );
		if ( g.coin( 1, 6 ) ) o.params = (CodeParams)c.arg( "params", Params ), c.ok = o.params && ! c.ok ? false : c.ok;
		if ( o.params.ast != ps.ast ) { // another argument in its place: judge by what it is
			rule = ! o.params ? op_rule( op, 0, -1, -1, ret ) : o.params->Type == CT_Parameters ? op_rule( op, 1, 0, -1, ret ) : No; c.ok = rule != No; }
		if ( g.coin( 1, 6 ) ) { Code r = c.arg( "ret_type", Type, true ); o.ret_type = (CodeTypename)r; if ( ! r || r->Type != CT_Typename ) c.ok = false; else { int k = 2, np = o.params ? o.params->NumEntries : 0; bool own = o.params.ast == ps.ast; rule = op_rule( op, np, np ? ( own ? p[ 0 ] : 0 ) : -1, np > 1 ? p[ 1 ] : -1, k ); if ( o.params && o.params->Type != CT_Parameters ) rule = No; c.ok = rule != No; } }
		bool base = c.ok; c.ok = true;
		o.attributes = (CodeAttributes)c.arg( "attributes", Attrs ); o.specifiers = (CodeSpecifiers)c.arg( "specifiers", Specs ); o.body = (CodeBody)c.arg( "body", FnBody ); o.mflags = c.mflags(); c.ok = c.ok && base;
		Str ns = c.name( "namespace", false ); std::string want = ( c.text.size() ? c.text : "" ) + "operator " + gx::X( operator_to_str( op ) );
		c.start( "def_operator" ); CodeOperator r = def_operator( op, ns, o ); all += c.log + "\n";
		if ( ! c.done( (Code)r, o.body ? ( rule == Member ? CT_Operator_Member : CT_Operator ) : rule == Member ? CT_Operator_Member_Fwd : CT_Operator_Fwd ) ) return;
		g.nontrivial = true; c.name_is( r->Name, want ); PBT_CHECK( r->Op == op, "%s: operator", c.log.c_str() );
		c.holds( (Code)r->Params, (Code)o.params, "parameters" ); c.holds( (Code)r->ReturnType, (Code)o.ret_type, "return type" ); c.holds( (Code)r->Specs, (Code)o.specifiers, "specifiers" ); c.holds( (Code)r->Attributes, (Code)o.attributes, "attributes" ); c.holds( (Code)r->Body, (Code)o.body, "body" ); c.mf( r->ModuleFlags, o.mflags );
	}, 4 );
}
// ---- everything else
static void declaration( Case& c ) {
	pbt::Gen& g = c.g; Str nm;
	switch ( g.draw( 21 ) ) {
	case 0: { nm = c.name( "content" ); c.start( "def_attributes" ); CodeAttributes r = def_attributes( nm ); if ( c.done( (Code)r, CT_PlatformAttributes ) ) c.name_is( r->Content, c.text ); break; }
	case 1: {
		std::string t; bool bad = g.coin( 1, 8 ); if ( ! bad ) t = g.str( "ab /*\n\t\\", 1, 24 ); c.ok = ! bad; c.log = "\"" + pbt::show( t ) + "\" "; c.start( "def_comment" ); CodeComment r = def_comment( gx::S( t ) );
		if ( c.done( (Code)r, CT_Comment ) ) { std::string want; size_t i = 0; while ( i < t.size() ) { size_t e = t.find( '\n', i ); want += "//" + t.substr( i, e == std::string::npos ? e : e - i ) + "\n"; i = e == std::string::npos ? t.size() : e + 1; } PBT_CHECK( gx::X( r->Content ) == want, "%s holds '%s', not '%s'", c.log.c_str(), pbt::show( gx::X( r->Content ) ).c_str(), pbt::show( want ).c_str() ); } break; }
	case 2: { Opts_def_constructor o = {}; o.params = (CodeParams)c.arg( "params", Params ); o.initializer_list = g.coin( 1, 3 ) ? untyped_str( txt( "a( 1 )" ) ) : Code{}; o.body = c.arg( "body", { CT_Function_Body, CT_Untyped } ); c.start( "def_constructor" ); CodeConstructor r = def_constructor( o );
		if ( c.done( (Code)r, o.body ? CT_Constructor : CT_Constructor_Fwd ) ) { c.holds( (Code)r->Params, (Code)o.params, "parameters" ); c.holds( r->InitializerList, o.initializer_list, "initializer list" ); c.holds( r->Body, o.body, "body" ); } break; }
	case 3: case 4: {
		bool cl = g.coin(); nm = c.name( "name", cl ); std::string t = c.text; Opts_def_struct o = {}; o.attributes = (CodeAttributes)c.arg( "attributes", Attrs ); o.parent = (CodeTypename)c.arg( "parent", cl ? Kinds{ CT_Class, CT_Struct, CT_Typename, CT_Untyped } : Type ); o.parent_access = access( g );
		o.specifiers = (CodeSpecifiers)c.arg( "specifiers", Specs ); o.mflags = c.mflags(); o.body = (CodeBody)c.arg( "body", cl ? Kinds{ CT_Class_Body, CT_Untyped } : Kinds{ CT_Struct_Body, CT_Untyped } );
		std::vector<CodeTypename> in; if ( ! o.parent || o.parent->Type == CT_Typename ) in.resize( g.coin( 1, 3 ) ? 1 + g.draw( 3 ) : 0 ); for ( size_t i = 0; i < in.size(); ++i ) { std::string s = std::string( "I" ) + char( '0' + i ); in[ i ] = def_type( gx::S( s ) ); }
		o.interfaces = in.data(); o.num_interfaces = (s32)in.size(); c.log += pbt::fmt( "interfaces: %zu, access %d ", in.size(), o.parent_access );
		c.start( cl ? "def_class" : "def_struct" ); Code r = cl ? (Code)def_class( nm, o ) : (Code)def_struct( nm, o );
		if ( ! c.done( r, cl ? ( o.body ? CT_Class : CT_Class_Fwd ) : o.body ? CT_Struct : CT_Struct_Fwd ) ) break;
		CodeClass k = (CodeClass)r; c.name_is( k->Name, t ); c.holds( (Code)k->Attributes, (Code)o.attributes, "attributes" ); c.holds( (Code)k->Specs, (Code)o.specifiers, "specifiers" ); c.holds( (Code)k->Body, (Code)o.body, "body" ); c.mf( k->ModuleFlags, o.mflags ); if ( o.body ) c.holds( o.body->Parent, r, "(parent of the) body" );
		if ( o.parent ) { c.holds( (Code)k->ParentType, (Code)o.parent, "parent" ); PBT_CHECK( k->ParentAccess == o.parent_access, "%s: access to the parent", c.log.c_str() ); }
		Code at = (Code)k->ParentType; if ( o.parent ) at = at->Next; for ( auto& i : in ) { PBT_CHECK( at && gx::X( at->Name ) == gx::X( i->Name ), "%s: interfaces", c.log.c_str() ); at = at->Next; } if ( ! o.parent || o.parent->Type == CT_Typename ) PBT_CHECK( ! at, "%s: more interfaces", c.log.c_str() ); break; }
	case 5: {
		nm = c.name( "name" ); std::string t = c.text, content = g.coin( 1, 4 ) ? "" : g.str( "ab +(1)\\", 1, 10 ); Opts_def_define o = {}; o.params = (CodeDefineParams)c.arg( "params", { CT_Parameters_Define } ); o.content = gx::S( content ); o.dont_register_to_preprocess_macros = g.coin(); MacroType mt = (MacroType)g.draw( 3 ); o.flags = (MacroFlags)( g.draw( 8 ) * 2 ); c.log += "content: " + pbt::show( content ) + ", "; 
		c.start( "def_define" ); CodeDefine r = def_define( nm, mt, o ); Macro* m = t.size() ? lookup_macro( gx::S( t ) ) : nullptr;
		if ( ! c.done( (Code)r, CT_Preprocess_Define ) ) { PBT_CHECK( ! m, "%s: refused, but registered", c.log.c_str() ); break; }
		c.name_is( r->Name, t ); c.holds( (Code)r->Params, (Code)o.params, "parameters" ); PBT_CHECK( r->Body && gx::X( r->Body->Content ) == content + "\n", "%s: content", c.log.c_str() );
		if ( o.dont_register_to_preprocess_macros ) PBT_CHECK( ! m, "%s: registered", c.log.c_str() ); else PBT_CHECK( m && m->Type == mt && m->Flags == o.flags, "%s: not registered as it was defined", c.log.c_str() ); break; }
	case 6: { Opts_def_destructor o = {}; o.specifiers = (CodeSpecifiers)c.arg( "specifiers", Specs ); o.body = c.arg( "body", { CT_Function_Body, CT_Untyped } ); c.start( "def_destructor" ); CodeDestructor r = def_destructor( o ); if ( c.done( (Code)r, o.body ? CT_Destructor : CT_Destructor_Fwd ) ) { c.holds( (Code)r->Specs, (Code)o.specifiers, "specifiers" ); c.holds( (Code)r->Body, o.body, "body" ); } break; }
	case 7: {
		nm = c.name( "name" ); std::string t = c.text; Opts_def_enum o = {}; o.body = (CodeBody)c.arg( "body", { CT_Enum_Body, CT_Untyped } ); o.type = (CodeTypename)c.arg( "type", Type ); o.attributes = (CodeAttributes)c.arg( "attributes", Attrs ); o.specifier = g.coin() ? EnumDecl_Class : EnumDecl_Regular; o.mflags = c.mflags(); if ( g.coin( 1, 4 ) ) o.type_macro = untyped_str( txt( "MACRO( E, int )" ) ), c.log += "type macro, ";
		if ( o.specifier == EnumDecl_Regular && ! o.body && ! o.type && ! o.type_macro ) c.ok = false;
		c.log += o.specifier == EnumDecl_Class ? "class " : "regular "; c.start( "def_enum" ); CodeEnum r = def_enum( nm, o ); if ( ! c.done( (Code)r, o.specifier == EnumDecl_Class ? ( o.body ? CT_Enum_Class : CT_Enum_Class_Fwd ) : o.body ? CT_Enum : CT_Enum_Fwd ) ) break;
		c.name_is( r->Name, t ); c.holds( (Code)r->Body, (Code)o.body, "body" ); c.holds( (Code)r->UnderlyingType, (Code)o.type, "underlying type" ); c.holds( (Code)r->Attributes, (Code)o.attributes, "attributes" ); c.mf( r->ModuleFlags, o.mflags ); if ( ! o.type ) c.holds( r->UnderlyingTypeMacro, o.type_macro, "type macro" ); break; }
	case 8: { nm = c.name( "content" ); c.start( "def_execution" ); CodeExec r = def_execution( nm ); if ( c.done( (Code)r, CT_Execution ) ) c.name_is( r->Content, c.text ); break; }
	case 9: { nm = c.name( "name" ); std::string t = c.text; Code b = c.arg( "body", { CT_Extern_Linkage_Body, CT_Untyped }, true ); c.start( "def_extern_link" ); CodeExtern r = def_extern_link( nm, (CodeBody)b ); if ( c.done( (Code)r, CT_Extern_Linkage ) ) { c.name_is( r->Name, t ); c.holds( (Code)r->Body, b, "body" ); } break; }
	case 10: { Code d = c.arg( "declaration", { CT_Class_Fwd, CT_Function_Fwd, CT_Operator_Fwd, CT_Struct_Fwd, CT_Class, CT_Function, CT_Operator, CT_Struct }, true ); c.start( "def_friend" ); CodeFriend r = def_friend( d ); if ( c.done( (Code)r, CT_Friend ) ) c.holds( r->Declaration, d, "declaration" ); break; }
	case 11: {
		nm = c.name( "name" ); std::string t = c.text; Opts_def_function o = {}; o.params = (CodeParams)c.arg( "params", Params ); o.ret_type = (CodeTypename)c.arg( "ret_type", Type ); o.body = (CodeBody)c.arg( "body", FnBody ); o.specs = (CodeSpecifiers)c.arg( "specs", Specs ); o.attrs = (CodeAttributes)c.arg( "attrs", Attrs ); o.mflags = c.mflags();
		c.start( "def_function" ); CodeFn r = def_function( nm, o ); if ( ! c.done( (Code)r, o.body ? CT_Function : CT_Function_Fwd ) ) break;
		c.name_is( r->Name, t ); c.holds( (Code)r->Params, (Code)o.params, "parameters" ); c.holds( (Code)r->Body, (Code)o.body, "body" ); c.holds( (Code)r->Specs, (Code)o.specs, "specifiers" ); c.holds( (Code)r->Attributes, (Code)o.attrs, "attributes" ); c.mf( r->ModuleFlags, o.mflags );
		if ( o.ret_type ) c.holds( (Code)r->ReturnType, (Code)o.ret_type, "return type" ); else PBT_CHECK( r->ReturnType && gx::X( r->ReturnType->Name ) == "void", "%s does not return void", c.log.c_str() ); break; }
	case 12: { bool f = g.coin(); nm = c.name( "path" ); std::string t = c.text; Opts_def_include o = {}; o.foreign = f; c.start( "def_include" ); CodeInclude r = def_include( nm, o ); if ( c.done( (Code)r, CT_Preprocess_Include ) ) PBT_CHECK( gx::X( r->Content ) == ( f ? "<" + t + ">" : "\"" + t + "\"" ), "%s holds %s", c.log.c_str(), gx::X( r->Content ).c_str() ); break; }
	case 13: {
		nm = c.name( "name" ); std::string t = c.text; ModuleFlag m = c.mflags(); if ( g.coin() ) { Opts_def_module o = {}; o.mflags = m; c.start( "def_module" ); CodeModule r = def_module( nm, o ); if ( c.done( (Code)r, CT_Module ) ) c.name_is( r->Name, t ), c.mf( r->ModuleFlags, m ); break; }
		Code b = c.arg( "body", { CT_Namespace_Body, CT_Untyped }, true ); Opts_def_namespace o = {}; o.mflags = m; c.start( "def_namespace" ); CodeNS r = def_namespace( nm, (CodeBody)b, o ); if ( c.done( (Code)r, CT_Namespace ) ) { c.name_is( r->Name, t ); c.holds( (Code)r->Body, b, "body" ); c.mf( r->ModuleFlags, m ); } break; }
	case 14: { Opts_def_operator_cast o = {}; Code t = c.arg( "type", Type, true ); o.body = (CodeBody)c.arg( "body", { CT_Function_Body, CT_Execution } ); o.specs = (CodeSpecifiers)c.arg( "specs", Specs ); c.start( "def_operator_cast" ); CodeOpCast r = def_operator_cast( (CodeTypename)t, o ); if ( c.done( (Code)r, o.body ? CT_Operator_Cast : CT_Operator_Cast_Fwd ) ) { c.holds( (Code)r->ValueType, t, "type" ); c.holds( (Code)r->Body, (Code)o.body, "body" ); c.holds( (Code)r->Specs, (Code)o.specs, "specifiers" ); } break; }
	case 15: { nm = c.name( "name" ); std::string t = c.text; Code ty = c.arg( "type", Type, true ); Opts_def_param o = {}; o.value = c.arg( "value", Text ); c.start( "def_param" ); CodeParams r = def_param( (CodeTypename)ty, nm, o ); if ( c.done( (Code)r, CT_Parameters ) ) { c.name_is( r->Name, t ); c.holds( (Code)r->ValueType, ty, "type" ); c.holds( r->Value, o.value, "value" ); PBT_CHECK( r->NumEntries == 1, "%s counts %d", c.log.c_str(), r->NumEntries ); } break; }
	case 16: {
		nm = c.name( "content" ); std::string t = c.text; if ( g.coin() ) { c.start( "def_pragma" ); CodePragma r = def_pragma( nm ); if ( c.done( (Code)r, CT_Preprocess_Pragma ) ) c.name_is( r->Content, t ); break; }
		int k = (int)g.draw( 4 ); static const EPreprocessCond e[] = { PreprocessCond_If, PreprocessCond_IfDef, PreprocessCond_IfNotDef, PreprocessCond_ElIf }; static const int w[] = { CT_Preprocess_If, CT_Preprocess_IfDef, CT_Preprocess_IfNotDef, CT_Preprocess_ElIf }; c.start( "def_preprocess_cond" ); CodePreprocessCond r = def_preprocess_cond( e[ k ], nm ); if ( c.done( (Code)r, w[ k ] ) ) c.name_is( r->Content, t ); break; }
	case 17: { Code p = c.arg( "params", Params ), d = c.arg( "declaration", { CT_Class, CT_Function, CT_Struct, CT_Variable, CT_Using }, true ); Opts_def_template o = {}; o.mflags = c.mflags(); c.start( "def_template" ); CodeTemplate r = def_template( (CodeParams)p, d, o ); if ( c.done( (Code)r, CT_Template ) ) { c.holds( (Code)r->Params, p, "parameters" ); c.holds( r->Declaration, d, "declaration" ); c.mf( r->ModuleFlags, o.mflags ); } break; }
	case 18: {
		nm = c.name( "name" ); std::string t = c.text; if ( g.coin() ) { Opts_def_type o = {}; o.attributes = (CodeAttributes)c.arg( "attributes", Attrs ); o.specifiers = (CodeSpecifiers)c.arg( "specifiers", Specs ); o.array_expr = c.arg( "array_expr", Text ); o.type_tag = (ETypenameTag)g.draw( 5 ); c.start( "def_type" ); CodeTypename r = def_type( nm, o ); if ( c.done( (Code)r, CT_Typename ) ) { c.name_is( r->Name, t ); c.holds( (Code)r->Attributes, (Code)o.attributes, "attributes" ); c.holds( (Code)r->Specs, (Code)o.specifiers, "specifiers" ); c.holds( r->ArrExpr, o.array_expr, "array expression" ); PBT_CHECK( r->TypeTag == o.type_tag, "%s: tag", c.log.c_str() ); } break; }
		Opts_def_typedef o = {}; Code ty = c.arg( "type", { CT_Class, CT_Class_Fwd, CT_Enum, CT_Enum_Fwd, CT_Enum_Class, CT_Enum_Class_Fwd, CT_Function_Fwd, CT_Struct, CT_Struct_Fwd, CT_Union, CT_Typename }, true ); o.attributes = (CodeAttributes)c.arg( "attributes", Attrs ); o.mflags = c.mflags();
		c.start( "def_typedef" ); CodeTypedef r = def_typedef( nm, ty, o ); if ( c.done( (Code)r, CT_Typedef ) ) { c.name_is( r->Name, t ); c.holds( r->UnderlyingType, ty, "type" ); c.mf( r->ModuleFlags, o.mflags ); PBT_CHECK( ! r->IsFunction, "%s is a function", c.log.c_str() ); } break; }
	case 19: {
		if ( g.coin( 1, 3 ) ) { nm = c.name( "name" ); c.start( "def_using_namespace" ); CodeUsing r = def_using_namespace( nm ); if ( c.done( (Code)r, CT_Using_Namespace ) ) c.name_is( r->Name, c.text ); break; }
		if ( g.coin() ) { nm = c.name( "name", false ); std::string t = c.text; Opts_def_union o = {}; Code b = c.arg( "body", { CT_Union_Body }, true ); o.attributes = (CodeAttributes)c.arg( "attributes", Attrs ); o.mflags = c.mflags(); c.start( "def_union" ); CodeUnion r = def_union( nm, (CodeBody)b, o ); if ( c.done( (Code)r, CT_Union ) ) { c.name_is( r->Name, t ); c.holds( (Code)r->Body, b, "body" ); c.holds( (Code)r->Attributes, (Code)o.attributes, "attributes" ); c.mf( r->ModuleFlags, o.mflags ); } break; }
		nm = c.name( "name" ); std::string t = c.text; Opts_def_using o = {}; Code ty = c.arg( "type", Type, true ); o.attributes = (CodeAttributes)c.arg( "attributes", Attrs ); o.mflags = c.mflags(); c.start( "def_using" ); CodeUsing r = def_using( nm, (CodeTypename)ty, o ); if ( c.done( (Code)r, CT_Using ) ) { c.name_is( r->Name, t ); c.holds( (Code)r->UnderlyingType, ty, "type" ); c.holds( (Code)r->Attributes, (Code)o.attributes, "attributes" ); c.mf( r->ModuleFlags, o.mflags ); } break; }
	default: {
		nm = c.name( "name" ); std::string t = c.text; Opts_def_variable o = {}; Code ty = c.arg( "type", Type, true ); o.value = c.arg( "value", Text ); o.specifiers = (CodeSpecifiers)c.arg( "specifiers", Specs ); o.attributes = (CodeAttributes)c.arg( "attributes", Attrs ); o.mflags = c.mflags();
		c.start( "def_variable" ); CodeVar r = def_variable( (CodeTypename)ty, nm, o ); if ( c.done( (Code)r, CT_Variable ) ) { c.name_is( r->Name, t ); c.holds( (Code)r->ValueType, ty, "type" ); c.holds( r->Value, o.value, "value" ); c.holds( (Code)r->Specs, (Code)o.specifiers, "specifiers" ); c.holds( (Code)r->Attributes, (Code)o.attributes, "attributes" ); c.mf( r->ModuleFlags, o.mflags ); } break; }
	}
	g.nontrivial = g.nontrivial || c.ok;
}
static void declarations( pbt::Gen& g ) { fresh(); std::string all; g.many( 1, 8, [&]( int ) { Case c{ g }; c.desc = all; declaration( c ); all += c.log + "\n"; }, 4 ); }
// ---- bodies and lists
static const Kinds NotMember = { CT_PlatformAttributes, CT_Class_Body, CT_Enum_Body, CT_Extern_Linkage, CT_Function_Body, CT_Global_Body, CT_Namespace, CT_Namespace_Body, CT_Operator, CT_Operator_Fwd, CT_Parameters, CT_Specifiers, CT_Struct_Body, CT_Typename };
static const Kinds NotFn = { CT_Access_Public, CT_Access_Protected, CT_Access_Private, CT_PlatformAttributes, CT_Class_Body, CT_Enum_Body, CT_Extern_Linkage, CT_Friend, CT_Function_Body, CT_Function_Fwd, CT_Global_Body, CT_Namespace, CT_Namespace_Body, CT_Operator, CT_Operator_Fwd, CT_Operator_Member, CT_Operator_Member_Fwd, CT_Parameters, CT_Specifiers, CT_Struct_Body, CT_Typename };
static const Kinds NotScope = { CT_Access_Public, CT_Access_Protected, CT_Access_Private, CT_PlatformAttributes, CT_Class_Body, CT_Enum_Body, CT_Execution, CT_Friend, CT_Function_Body, CT_Namespace_Body, CT_Operator_Member, CT_Operator_Member_Fwd, CT_Parameters, CT_Specifiers, CT_Struct_Body, CT_Typename };
typedef CodeBody (* Arr)( s32, Code* ); typedef CodeBody (* Va)( s32, ... );
struct BodyFn { const char* fn; int type; Va va; Arr arr; const Kinds* refuses; };
static const BodyFn Bodies[] = {
	{ "def_class_body", CT_Class_Body, def_class_body, def_class_body_arr, & NotMember }, { "def_struct_body", CT_Struct_Body, def_struct_body, def_struct_body_arr, & NotMember },
	{ "def_function_body", CT_Function_Body, def_function_body, def_function_body_arr, & NotFn }, { "def_global_body", CT_Global_Body, def_global_body, def_global_body_arr, & NotScope }, { "def_namespace_body", CT_Namespace_Body, def_namespace_body, def_namespace_body_arr, & NotScope },
	{ "def_export_body", CT_Export_Body, def_export_body, def_export_body_arr, & NotScope }, { "def_extern_link_body", CT_Extern_Linkage_Body, def_extern_link_body, def_extern_link_body_arr, & NotScope },
	{ "def_enum_body", CT_Enum_Body, def_enum_body, def_enum_body_arr, nullptr }, { "def_union_body", CT_Union_Body, def_union_body, def_union_body_arr, nullptr } };
static bool allowed( const BodyFn& b, int k ) { if ( b.type == CT_Global_Body && k == CT_Global_Body ) return true; if ( ! b.refuses ) return k == CT_Untyped || k == CT_Comment; return ! b.refuses->count( k ); }
static void bodies( pbt::Gen& g ) {
	fresh(); const BodyFn& B = Bodies[ g.draw( 9 ) ]; bool arr = g.coin(); std::string log = std::string( B.fn ) + ( arr ? "_arr" : "" ); 
	std::vector<int> good; for ( int k = 1; k < CT_NumTypes; ++k ) if ( allowed( B, k ) ) good.push_back( k );
	int n = (int)g.draw( 9 ); bool ok = n > 0; std::vector<Code> v;
	for ( int i = 0; i < n; ++i ) { Code c = {}; if ( g.coin( 1, 30 ) ) ok = false; else { int k = g.coin( 1, 10 ) ? 1 + (int)g.draw( CT_NumTypes - 1 ) : g.pick( good ); if ( ! allowed( B, k ) ) ok = false; c = zoo( k ); } v.push_back( c ); log += " " + kind( c ); }
	pbt::describe( g, log + "\n" ); long before = gx::failures; Code pad = Code_Invalid; auto at = [&]( size_t i ) { return i < v.size() ? v[ i ] : pad; };
	bool null_codes = arr && n == 0 && g.coin();
	CodeBody r = arr ? B.arr( n, null_codes ? nullptr : v.data() ) : B.va( n, at( 0 ), at( 1 ), at( 2 ), at( 3 ), at( 4 ), at( 5 ), at( 6 ), at( 7 ) );
	bool refused = ! r || (Code)r == Code_Invalid; g.label( ok ? "accepted" : "refused" );
	if ( ! ok ) { PBT_CHECK( refused, "accepted: %s", log.c_str() ); PBT_CHECK( gx::failures != before, "refused without a report: %s", log.c_str() ); }
	else {
		g.nontrivial = n > 1; PBT_CHECK( ! refused, "refused: %s", log.c_str() ); PBT_CHECK( gx::failures == before, "accepted, but reported as a failure: %s", log.c_str() ); PBT_CHECK( (int)r->Type == B.type, "%s gave %s", log.c_str(), kind( (Code)r ).c_str() );
		std::vector<std::string> want; for ( Code c : v ) { if ( code_is_body( c ) ) { for ( Code e : (CodeBody)c ) want.push_back( kind( e ) ); } else want.push_back( kind( c ) ); }
		size_t i = 0; for ( Code e = r->Front; e; e = e->Next ) { PBT_CHECK( i < want.size() && kind( e ) == want[ i ], "%s: entry %zu is %s", log.c_str(), i, kind( e ).c_str() ); PBT_CHECK( e->Parent.ast == (AST*)r.ast, "%s: the parent of entry %zu is another", log.c_str(), i ); ++i; }
		PBT_CHECK( i == want.size() && (int)r->NumEntries == (int)i, "%s: %zu entries, counted %d", log.c_str(), i, r->NumEntries );
	}
	// the body validation agrees, entry by entry
	CodeBody b = def_body( (CodeType)B.type ); bool valid = true; std::string in; for ( Code c : v ) if ( c && ! code_is_body( c ) ) { Code z = zoo( c->Type ); if ( ! allowed( B, z->Type ) ) valid = false; body_append( b, z ); }
	before = gx::failures; bool is = code_validate_body( (Code)b ); PBT_CHECK( is == valid, "code_validate_body %s the entries of %s", is ? "accepts" : "refuses", log.c_str() ); PBT_CHECK( is == ( gx::failures == before ), "code_validate_body: report for %s", log.c_str() );
}
static void lists( pbt::Gen& g ) {
	fresh(); int n = (int)g.draw( 9 ); bool arr = g.coin(), ok = n > 0; std::string log; long before;
	switch ( g.draw( 3 ) ) {
	case 0: {
		if ( g.coin( 1, 8 ) ) n = 12 + (int)g.draw( 20 ); bool specs_ok = n > 0 && n <= AST_ArrSpecs_Cap; int cap = AST_ArrSpecs_Cap; std::vector<Specifier> v; for ( int i = 0; i < ( n < 8 ? 8 : n ); ++i ) v.push_back( (Specifier)( 1 + g.draw( Spec_NumSpecifiers - 1 ) ) ); if ( n > 8 ) arr = true; if ( g.coin( 1, 10 ) ) { n = -(int)g.draw( 3 ); specs_ok = false; }
		log = pbt::fmt( "def_specifiers%s of %d:", arr ? "_arr" : "", n ); for ( int i = 0; i < n; ++i ) log += " " + gx::X( spec_to_str( v[ i ] ) ); pbt::describe( g, log + "\n" ); before = gx::failures;
		CodeSpecifiers r = arr ? def_specifiers_arr( n, v.data() ) : def_specifiers( n, v[ 0 ], v[ 1 ], v[ 2 ], v[ 3 ], v[ 4 ], v[ 5 ], v[ 6 ], v[ 7 ] ); bool refused = ! r || (Code)r == Code_Invalid; (void)cap;
		if ( ! specs_ok ) { PBT_CHECK( refused && gx::failures != before, "accepted or not reported: %s", log.c_str() ); break; }
		g.nontrivial = n > 1; PBT_CHECK( ! refused && gx::failures == before && r->Type == CT_Specifiers && r->NumEntries == n, "refused, reported or miscounted: %s", log.c_str() ); for ( int i = 0; i < n; ++i ) PBT_CHECK( r->ArrSpecs[ i ] == v[ i ], "%s: entry %d", log.c_str(), i ); break; }
	case 1: case 2: {
		bool def = g.coin(); int own = def ? CT_Parameters_Define : CT_Parameters; std::vector<Code> v; std::vector<std::string> names; log = std::string( def ? "def_define_params" : "def_params" ) + ( arr ? "_arr" : "" );
		for ( int i = 0; i < n; ++i ) { Code c = {}; if ( g.coin( 1, 30 ) ) ok = false; else { int k = g.coin( 1, 16 ) ? 1 + (int)g.draw( CT_NumTypes - 1 ) : own; c = zoo( k ); if ( k != own ) ok = false; else { std::string nm = std::string( "n" ) + char( 'a' + g.draw( 26 ) ); c->Name = cache_str( gx::S( nm ) ); names.push_back( nm ); } } v.push_back( c ); log += " " + kind( c ); }
		pbt::describe( g, log + "\n" ); before = gx::failures; Code pad = Code_Invalid; auto at = [&]( size_t i ) { return i < v.size() ? v[ i ] : pad; };
		Code r = def ? ( arr ? (Code)def_define_params_arr( n, (CodeDefineParams*)v.data() ) : (Code)def_define_params( n, at( 0 ), at( 1 ), at( 2 ), at( 3 ), at( 4 ), at( 5 ), at( 6 ), at( 7 ) ) ) : arr ? (Code)def_params_arr( n, (CodeParams*)v.data() ) : (Code)def_params( n, at( 0 ), at( 1 ), at( 2 ), at( 3 ), at( 4 ), at( 5 ), at( 6 ), at( 7 ) );
		bool refused = ! r || r == Code_Invalid; g.label( ok ? "accepted" : "refused" );
		if ( ! ok ) { PBT_CHECK( refused, "accepted: %s", log.c_str() ); PBT_CHECK( gx::failures != before, "refused without a report: %s", log.c_str() ); break; }
		g.nontrivial = n > 1; PBT_CHECK( ! refused && gx::failures == before, "refused or reported: %s", log.c_str() ); PBT_CHECK( (int)r->Type == own && (int)((CodeParams)r)->NumEntries == n, "%s gave %s of %d", log.c_str(), kind( r ).c_str(), ((CodeParams)r)->NumEntries );
		size_t i = 0; for ( Code e = r; e; e = e->Next ) { PBT_CHECK( i < names.size() && gx::X( e->Name ) == names[ i ], "%s: entry %zu is %s", log.c_str(), i, gx::X( e->Name ).c_str() ); ++i; } PBT_CHECK( i == names.size(), "%s: %zu entries", log.c_str(), i ); break; }
	}
}
int main( int argc, char** argv ) {
	return run_main( argc, argv, "C07", "a construction was accepted (declarations, operators), or more than one entry was accepted (bodies, lists)", {
		{ "declarations", declarations, 30000, 600000, 300, 10 }, { "operators", operators, 20000, 400000, 300, 10 }, { "bodies", bodies, 20000, 400000, 300, 10 }, { "lists", lists, 15000, 200000, 300, 10 } } );
}

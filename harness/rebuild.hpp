// Rebuilds an AST with the upfront constructors (def_*), part by part. What the constructors cannot express
// (members they have no argument for) is set on the result, as a user of the library has to.
#pragma once
struct Rebuild {
	pbt::Gen& g; int made = 0; std::string last; std::set<std::string> kinds;
	void use( const char* k ) { ++made; last = k; kinds.insert( k ); }
	CodeAttributes attrs( CodeAttributes a ) { if ( ! a ) return a; use( "def_attributes" ); return def_attributes( a->Content ); }
	CodeSpecifiers specs( CodeSpecifiers s ) {
		if ( ! s ) return s; int n = s->NumEntries;
		if ( n == 0 ) return (CodeSpecifiers)code_duplicate( (Code)s );
		use( "def_specifiers" );
		if ( n == 1 && g.coin() ) return def_specifier( s->ArrSpecs[ 0 ] );
		if ( g.coin() ) return def_specifiers_arr( n, s->ArrSpecs );
		if ( n == 2 ) return def_specifiers( 2, s->ArrSpecs[ 0 ], s->ArrSpecs[ 1 ] );
		if ( n == 3 ) return def_specifiers( 3, s->ArrSpecs[ 0 ], s->ArrSpecs[ 1 ], s->ArrSpecs[ 2 ] );
		CodeSpecifiers r = def_specifier( s->ArrSpecs[ 0 ] ); for ( int i = 1; i < n; ++i ) specifiers_append( r, s->ArrSpecs[ i ] ); return r;
	}
	Code untyped( Code u ) { if ( ! u ) return u; if ( u->Type != CT_Untyped ) return code_duplicate( u ); use( "untyped_str" ); Code r = untyped_str( u->Content ); r->Next = u->Next ? untyped( u->Next ) : NullCode; return r; }
	CodeTypename type( CodeTypename t ) {
		if ( ! t ) return t; if ( t->Type != CT_Typename ) return (CodeTypename)code( (Code)t );
		if ( t->Name.Len == 0 || t->ReturnType ) return (CodeTypename)code_duplicate( (Code)t );
		use( "def_type" ); Opts_def_type o = {}; o.type_tag = t->TypeTag; o.array_expr = untyped( t->ArrExpr ); o.specifiers = specs( t->Specs ); o.attributes = attrs( t->Attributes );
		CodeTypename r = def_type( t->Name, o ); r->IsParamPack = t->IsParamPack; return r;
	}
	CodeParams params( CodeParams p ) {
		if ( ! p ) return p; std::vector<CodeParams> v; int n = p->NumEntries;
		if ( n == 0 ) return (CodeParams)code_duplicate( (Code)p );
		for ( CodeParams q = p; q && n-- > 0; q = q->Next ) v.push_back( param( q ) );
		use( "def_params" );
		if ( v.size() == 1 && g.coin() ) return v[ 0 ];
		if ( v.size() == 2 && g.coin() ) return def_params( 2, v[ 0 ], v[ 1 ] );
		if ( v.size() == 3 && g.coin() ) return def_params( 3, v[ 0 ], v[ 1 ], v[ 2 ] );
		if ( g.coin() ) { CodeParams r = v[ 0 ]; for ( size_t i = 1; i < v.size(); ++i ) params_append( r, v[ i ] ); return r; }
		return def_params_arr( (s32)v.size(), v.data() );
	}
	CodeParams param( CodeParams q ) {
		if ( q->Name.Len && q->ValueType && ! q->Macro && ! q->PostNameMacro && q->ValueType->Type == CT_Typename ) { use( "def_param" ); Opts_def_param o = {}; o.value = untyped( q->Value ); return def_param( type( q->ValueType ), q->Name, o ); }
		CodeParams r = (CodeParams)make_code(); r->Type = CT_Parameters; r->Name = q->Name; r->ValueType = type( q->ValueType ); r->Value = untyped( q->Value ); r->Macro = q->Macro; r->PostNameMacro = q->PostNameMacro; r->NumEntries = 1; return r;
	}
	typedef CodeBody (* Arr)( s32, Code* ); typedef CodeBody (* Va)( s32, ... );
	CodeBody body( CodeBody b ) {
		if ( ! b ) return b;
		std::vector<Code> v; Arr arr = nullptr; Va va = nullptr; const char* k = "";
		switch ( b->Type ) {
		case CT_Class_Body: arr = def_class_body_arr; va = def_class_body; k = "def_class_body"; break;
		case CT_Struct_Body: arr = def_struct_body_arr; va = def_struct_body; k = "def_struct_body"; break;
		case CT_Export_Body: arr = def_export_body_arr; va = def_export_body; k = "def_export_body"; break;
		case CT_Extern_Linkage_Body: arr = def_extern_link_body_arr; va = def_extern_link_body; k = "def_extern_link_body"; break;
		case CT_Function_Body: arr = def_function_body_arr; va = def_function_body; k = "def_function_body"; break;
		case CT_Global_Body: arr = def_global_body_arr; va = def_global_body; k = "def_global_body"; break;
		case CT_Namespace_Body: arr = def_namespace_body_arr; va = def_namespace_body; k = "def_namespace_body"; break;
		case CT_Enum_Body: arr = def_enum_body_arr; va = def_enum_body; k = "def_enum_body"; break;
		case CT_Union_Body: arr = def_union_body_arr; va = def_union_body; k = "def_union_body"; break;
		default: return (CodeBody)code_duplicate( (Code)b );
		}
		bool only_text = b->Type == CT_Enum_Body || b->Type == CT_Union_Body, plain = true, outside = b->Type != CT_Class_Body && b->Type != CT_Struct_Body, append = false; // member operators out of line, and [] () , ->* new delete within a class (finding), are appended
		for ( Code c = begin_CodeBody( b ); c != end_CodeBody( b ); c = next_CodeBody( b, c ) ) { if ( only_text && c->Type != CT_Untyped && c->Type != CT_Comment ) plain = false; if ( c->Type == CT_NewLine ) { v.push_back( g.coin() ? fmt_newline : code_duplicate( c ) ); continue; } v.push_back( plain || ! only_text ? code( c ) : c ); if ( v.size() && ( outside ? v.back()->Type == CT_Operator_Member || v.back()->Type == CT_Operator_Member_Fwd : v.back()->Type == CT_Operator || v.back()->Type == CT_Operator_Fwd ) ) append = true; }
		if ( only_text && plain ) { std::vector<Code> w; for ( Code c : v ) if ( c->Type != CT_NewLine ) w.push_back( c ); v = w; }   // what enum and union bodies take upfront is text
		CodeBody r;
		if ( v.empty() || ! plain || append ) { r = def_body( b->Type ); for ( Code c : v ) body_append( r, plain ? c : code( c ) ); return r; }
		use( k );
		switch ( g.draw( 3 ) ) {
		case 0: if ( v.size() == 1 ) return va( 1, v[ 0 ] ); if ( v.size() == 2 ) return va( 2, v[ 0 ], v[ 1 ] ); if ( v.size() == 3 ) return va( 3, v[ 0 ], v[ 1 ], v[ 2 ] ); if ( v.size() == 4 ) return va( 4, v[ 0 ], v[ 1 ], v[ 2 ], v[ 3 ] ); break;
		case 1: r = def_body( b->Type ); for ( Code c : v ) body_append( r, c ); return r;
		}
		return arr( (s32)v.size(), v.data() );
	}
	Code block( Code b ) { if ( ! b ) return b; if ( code_is_body( b ) ) return (Code)body( (CodeBody)b ); return code( b ); }   // a body, or untyped text / an execution
	CodeComment cmt( CodeComment c ) { return c ? (CodeComment)comment( (Code)c ) : c; }
	Code comment( Code c ) {
		std::string t = gx::X( c->Content ); size_t nl = t.find( '\n' );
		if ( t.compare( 0, 2, "//" ) == 0 && t.size() > 3 && ( nl == std::string::npos || nl + 1 == t.size() ) && t.back() != '\r' ) { use( "def_comment" ); std::string s = t.substr( 2 ); return (Code)def_comment( gx::S( s ) ); }
		return code_duplicate( c );
	}
	std::vector<CodeTypename> interfaces( CodeTypename p ) { std::vector<CodeTypename> v; if ( p ) for ( Code n = p->Next; n; n = n->Next ) v.push_back( type( (CodeTypename)n ) ); return v; }
	Code code( Code c ) {
		if ( ! c ) return c;
		switch ( c->Type ) {
		case CT_Global_Body: case CT_Export_Body: return (Code)body( (CodeBody)c );
		case CT_Untyped: return untyped( c );
		case CT_Execution: use( "def_execution" ); return (Code)def_execution( c->Content );
		case CT_Comment: return comment( c );
		case CT_Access_Public: return access_public; case CT_Access_Protected: return access_protected; case CT_Access_Private: return access_private;
		case CT_Preprocess_Else: return (Code)preprocess_else; case CT_Preprocess_EndIf: return (Code)preprocess_endif;
		case CT_Preprocess_If: use( "def_preprocess_cond" ); return (Code)def_preprocess_cond( PreprocessCond_If, c->Content );
		case CT_Preprocess_IfDef: use( "def_preprocess_cond" ); return (Code)def_preprocess_cond( PreprocessCond_IfDef, c->Content );
		case CT_Preprocess_IfNotDef: use( "def_preprocess_cond" ); return (Code)def_preprocess_cond( PreprocessCond_IfNotDef, c->Content );
		case CT_Preprocess_ElIf: use( "def_preprocess_cond" ); return (Code)def_preprocess_cond( PreprocessCond_ElIf, c->Content );
		case CT_Preprocess_Pragma: use( "def_pragma" ); return (Code)def_pragma( c->Content );
		case CT_Preprocess_Include: {
			std::string t = gx::X( c->Content ); if ( t.size() < 3 || ( t[ 0 ] != '<' && t[ 0 ] != '"' ) ) return code_duplicate( c );
			use( "def_include" ); Opts_def_include o = {}; o.foreign = t[ 0 ] == '<'; std::string s = t.substr( 1, t.size() - 2 ); return (Code)def_include( gx::S( s ), o ); }
		case CT_Preprocess_Define: {
			CodeDefine d = (CodeDefine)c; use( "def_define" ); Opts_def_define o = {}; o.dont_register_to_preprocess_macros = true; if ( d->Body ) o.content = d->Body->Content;
			if ( d->Params ) {
				std::vector<CodeDefineParams> v; int n = d->Params->NumEntries;
				for ( CodeDefineParams p = d->Params; p && n-- > 0; p = p->Next ) { CodeDefineParams q = (CodeDefineParams)make_code(); q->Type = CT_Parameters_Define; q->Name = p->Name; q->NumEntries = 1; v.push_back( q ); }
				if ( v.empty() ) o.params = d->Params; else { use( "def_define_params" ); o.params = v.size() == 1 ? def_define_params( 1, v[ 0 ] ) : v.size() == 2 && g.coin() ? def_define_params( 2, v[ 0 ], v[ 1 ] ) : def_define_params_arr( (s32)v.size(), v.data() ); }
			}
			return (Code)def_define( d->Name, MT_Expression, o ); }
		case CT_Variable: {
			CodeVar v = (CodeVar)c; if ( v->Name.Len == 0 || ! v->ValueType || v->ValueType->Type != CT_Typename || ( v->Value && v->Value->Type != CT_Untyped ) ) return code_duplicate( c );
			use( "def_variable" ); Opts_def_variable o = {}; o.value = untyped( v->Value ); o.specifiers = specs( v->Specs ); o.attributes = attrs( v->Attributes ); o.mflags = v->ModuleFlags;
			CodeVar r = def_variable( type( v->ValueType ), v->Name, o ); r->BitfieldSize = untyped( v->BitfieldSize ); r->VarParenthesizedInit = v->VarParenthesizedInit; r->InlineCmt = cmt( v->InlineCmt );
			CodeVar at = r; for ( CodeVar n = v->NextVar; n; n = n->NextVar ) { CodeVar k = (CodeVar)make_code(); k->Type = CT_Variable; k->Name = n->Name; k->ValueType = type( n->ValueType ); k->Specs = specs( n->Specs ); k->Value = untyped( n->Value ); k->BitfieldSize = untyped( n->BitfieldSize ); k->VarParenthesizedInit = n->VarParenthesizedInit; at->NextVar = k; k->Parent = (Code)at; at = k; }
			return (Code)r; }
		case CT_Function: case CT_Function_Fwd: {
			CodeFn f = (CodeFn)c; if ( ( c->Type == CT_Function_Fwd && f->Body ) || f->SuffixSpecs || ! f->ReturnType || f->ReturnType->Type != CT_Typename ) return code_duplicate( c );
			use( "def_function" ); Opts_def_function o = {}; o.params = params( f->Params ); o.ret_type = type( f->ReturnType ); o.specs = specs( f->Specs ); o.attrs = attrs( f->Attributes ); o.mflags = f->ModuleFlags; o.body = (CodeBody)block( (Code)f->Body );
			CodeFn r = def_function( f->Name, o ); r->InlineCmt = cmt( f->InlineCmt ); return (Code)r; }
		case CT_Operator: case CT_Operator_Fwd: case CT_Operator_Member: case CT_Operator_Member_Fwd: {
			CodeOperator f = (CodeOperator)c; std::string n = gx::X( f->Name ); size_t at = n.rfind( "operator" ); std::string ns = at == std::string::npos ? "" : n.substr( 0, at ); while ( ns.size() && isspace( (unsigned char)ns.back() ) ) ns.pop_back();
			use( "def_operator" ); Opts_def_operator o = {}; o.params = params( f->Params ); o.ret_type = type( f->ReturnType ); o.specifiers = specs( f->Specs ); o.attributes = attrs( f->Attributes ); o.mflags = f->ModuleFlags; o.body = (CodeBody)block( (Code)f->Body );
			CodeOperator r = def_operator( f->Op, gx::S( ns ), o ); if ( (Code)r != Code_Invalid ) r->InlineCmt = cmt( f->InlineCmt ); return (Code)r; }
		case CT_Operator_Cast: case CT_Operator_Cast_Fwd: {
			CodeOpCast f = (CodeOpCast)c; use( "def_operator_cast" ); Opts_def_operator_cast o = {}; o.specs = specs( f->Specs ); o.body = (CodeBody)block( (Code)f->Body );
			CodeOpCast r = def_operator_cast( type( f->ValueType ), o ); r->Name = f->Name; r->InlineCmt = cmt( f->InlineCmt ); return (Code)r; }
		case CT_Constructor: case CT_Constructor_Fwd: {
			CodeConstructor f = (CodeConstructor)c; if ( c->Type == CT_Constructor_Fwd && f->Body ) return code_duplicate( c );
			use( "def_constructor" ); Opts_def_constructor o = {}; o.params = params( f->Params ); o.initializer_list = untyped( f->InitializerList ); o.body = block( f->Body );
			CodeConstructor r = def_constructor( o ); r->Name = f->Name; r->Specs = specs( f->Specs ); r->InlineCmt = cmt( f->InlineCmt ); return (Code)r; }
		case CT_Destructor: case CT_Destructor_Fwd: {
			CodeDestructor f = (CodeDestructor)c; if ( c->Type == CT_Destructor_Fwd && f->Body ) return code_duplicate( c );
			use( "def_destructor" ); Opts_def_destructor o = {}; o.specifiers = specs( f->Specs ); o.body = block( (Code)f->Body );
			CodeDestructor r = def_destructor( o ); r->Name = f->Name; r->InlineCmt = cmt( f->InlineCmt ); return (Code)r; }
		case CT_Class: case CT_Class_Fwd: {
			CodeClass f = (CodeClass)c; if ( f->Name.Len == 0 ) return code_duplicate( c ); auto in = interfaces( f->ParentType );
			use( "def_class" ); Opts_def_struct o = {}; o.body = body( f->Body ); o.parent = type( f->ParentType ); o.parent_access = f->ParentAccess; o.attributes = attrs( f->Attributes ); o.interfaces = in.data(); o.num_interfaces = (s32)in.size(); o.specifiers = specs( f->Specs ); o.mflags = f->ModuleFlags;
			CodeClass r = def_class( f->Name, o ); r->InlineCmt = cmt( f->InlineCmt ); return (Code)r; }
		case CT_Struct: case CT_Struct_Fwd: {
			CodeStruct f = (CodeStruct)c; auto in = interfaces( f->ParentType );
			use( "def_struct" ); Opts_def_struct o = {}; o.body = body( f->Body ); o.parent = type( f->ParentType ); o.parent_access = f->ParentAccess; o.attributes = attrs( f->Attributes ); o.interfaces = in.data(); o.num_interfaces = (s32)in.size(); o.specifiers = specs( f->Specs ); o.mflags = f->ModuleFlags;
			CodeStruct r = def_struct( f->Name, o ); r->InlineCmt = cmt( f->InlineCmt ); return (Code)r; }
		case CT_Union: case CT_Union_Fwd: {
			CodeUnion f = (CodeUnion)c; if ( ! f->Body ) return code_duplicate( c );
			use( "def_union" ); Opts_def_union o = {}; o.attributes = attrs( f->Attributes ); o.mflags = f->ModuleFlags; return (Code)def_union( f->Name, body( f->Body ), o ); }
		case CT_Enum: case CT_Enum_Fwd: case CT_Enum_Class: case CT_Enum_Class_Fwd: {
			CodeEnum f = (CodeEnum)c; if ( f->Name.Len == 0 || f->UnderlyingTypeMacro || ( c->Type == CT_Enum_Fwd && ! f->UnderlyingType ) || ( f->UnderlyingType && f->UnderlyingType->Type != CT_Typename ) ) return code_duplicate( c ); bool cl = c->Type == CT_Enum_Class || c->Type == CT_Enum_Class_Fwd;
			use( "def_enum" ); Opts_def_enum o = {}; o.body = body( f->Body ); o.type = type( f->UnderlyingType ); o.specifier = cl ? EnumDecl_Class : EnumDecl_Regular; o.attributes = attrs( f->Attributes ); o.mflags = f->ModuleFlags;
			CodeEnum r = def_enum( f->Name, o ); r->InlineCmt = cmt( f->InlineCmt ); return (Code)r; }
		case CT_Namespace: { CodeNS f = (CodeNS)c; use( "def_namespace" ); Opts_def_namespace o = {}; o.mflags = f->ModuleFlags; return (Code)def_namespace( f->Name, body( f->Body ), o ); }
		case CT_Extern_Linkage: { CodeExtern f = (CodeExtern)c; use( "def_extern_link" ); return (Code)def_extern_link( f->Name, body( f->Body ) ); }
		case CT_Friend: {
			CodeFriend f = (CodeFriend)c; CodeType t = f->Declaration->Type;
			if ( t != CT_Class_Fwd && t != CT_Function_Fwd && t != CT_Operator_Fwd && t != CT_Struct_Fwd && t != CT_Class && t != CT_Function && t != CT_Operator && t != CT_Struct ) return code_duplicate( c );
			use( "def_friend" ); CodeFriend r = def_friend( code( f->Declaration ) ); r->InlineCmt = cmt( f->InlineCmt ); return (Code)r; }
		case CT_Template: {
			CodeTemplate f = (CodeTemplate)c; CodeType t = f->Declaration->Type; if ( t != CT_Class && t != CT_Function && t != CT_Struct && t != CT_Variable && t != CT_Using ) return code_duplicate( c );
			use( "def_template" ); Opts_def_template o = {}; o.mflags = f->ModuleFlags; return (Code)def_template( params( f->Params ), code( f->Declaration ), o ); }
		case CT_Typedef: {
			CodeTypedef f = (CodeTypedef)c; CodeType t = f->UnderlyingType->Type; if ( f->IsFunction || f->Name.Len == 0 || ( t != CT_Class && t != CT_Class_Fwd && t != CT_Enum && t != CT_Enum_Fwd && t != CT_Enum_Class && t != CT_Struct && t != CT_Struct_Fwd && t != CT_Union && t != CT_Typename ) ) return code_duplicate( c );
			use( "def_typedef" ); Opts_def_typedef o = {}; o.mflags = f->ModuleFlags; Code u = t == CT_Typename ? (Code)type( (CodeTypename)f->UnderlyingType ) : code( f->UnderlyingType );
			CodeTypedef r = def_typedef( f->Name, u, o ); u->Parent = (Code)r; r->InlineCmt = cmt( f->InlineCmt ); return (Code)r; }
		case CT_Using: {
			CodeUsing f = (CodeUsing)c; if ( ! f->UnderlyingType || f->UnderlyingType->Type != CT_Typename ) return code_duplicate( c );
			use( "def_using" ); Opts_def_using o = {}; o.attributes = attrs( f->Attributes ); o.mflags = f->ModuleFlags; CodeUsing r = def_using( f->Name, type( f->UnderlyingType ), o ); r->InlineCmt = cmt( f->InlineCmt ); return (Code)r; }
		case CT_Using_Namespace: { CodeUsing f = (CodeUsing)c; use( "def_using_namespace" ); CodeUsing r = def_using_namespace( f->Name ); r->InlineCmt = cmt( f->InlineCmt ); return (Code)r; }
		case CT_Typename: return (Code)type( (CodeTypename)c );
		default: return code_duplicate( c );
		}
	}
};

// C21 - every route to a code's text gives the same text, and making it changes nothing.
#include "src_main.hpp"
#include "mac.hpp"
#include "zoo.hpp"
#include "all.hpp"
static void same( Code c, const char* route, const std::string& have, const std::string& want ) {
	PBT_CHECK( have == want, "%s of a %.*s gives\n%s\ninstead of\n%s", route, (int)code_type_str( c ).Len, code_type_str( c ).Ptr, have.c_str(), want.c_str() );
}
static const char* HEAD = "head // before\n";
template<class F> static std::string after( Code c, const char* route, F f ) {
	StrBuilder b = strbuilder_make_str( ctx.Allocator_Temp, gx::S( HEAD ) ); f( b ); std::string s = gx::X( b ), h = HEAD;
	PBT_CHECK( s.compare( 0, h.size(), h ) == 0, "%s of a %.*s changed what it was to append to:\n%s", route, (int)code_type_str( c ).Len, code_type_str( c ).Ptr, s.c_str() ); return s.substr( h.size() );
}
template<class T> static void routes( Code c, const std::string& text, StrBuilder (*f)( T ), void (*r)( T, StrBuilder* ) ) {
	T t = (T)c; same( c, "its own function", gx::X( f( t ) ), text );
	same( c, "its member", gx::X( t.to_strbuilder() ), text );
	same( c, "its overload", gx::X( to_strbuilder( t ) ), text );
	if ( r ) same( c, "its appending function", after( c, "its appending function", [&]( StrBuilder& b ) { r( t, & b ); } ), text );
}
#define APP( call ) same( c, #call, after( c, #call, [&]( StrBuilder& b ) { call; } ), text )
static void one( Code c ) {
	std::string text = gx::X( code_to_strbuilder( c ) );
	same( c, "asking again", gx::X( code_to_strbuilder( c ) ), text ); same( c, "the member", gx::X( c.to_strbuilder() ), text );
	APP( code_to_strbuilder_ref( c, & b ) ); APP( c.to_strbuilder( b ) );
	switch ( c->Type ) {
	case CT_Comment: routes<CodeComment>( c, text, comment_to_strbuilder, comment_to_strbuilder_ref ); { CodeComment t = (CodeComment)c; APP( t.to_strbuilder( b ) ); APP( to_strbuilder( t, b ) ); } break;
	case CT_Execution: routes<CodeExec>( c, text, exec_to_strbuilder, exec_to_strbuilder_ref ); { CodeExec t = (CodeExec)c; APP( t.to_strbuilder( b ) ); APP( to_strbuilder( t, b ) ); } break;
	case CT_PlatformAttributes: routes<CodeAttributes>( c, text, attributes_to_strbuilder, attributes_to_strbuilder_ref ); { CodeAttributes t = (CodeAttributes)c; APP( t.to_strbuilder( b ) ); APP( to_strbuilder( t, b ) ); } break;
	case CT_Class: routes<CodeClass>( c, text, class_to_strbuilder, class_to_strbuilder_def ); { CodeClass t = (CodeClass)c; APP( t.to_strbuilder_def( b ) ); APP( to_strbuilder_def( t, b ) ); } break;
	case CT_Class_Fwd: routes<CodeClass>( c, text, class_to_strbuilder, class_to_strbuilder_fwd ); { CodeClass t = (CodeClass)c; APP( t.to_strbuilder_fwd( b ) ); APP( to_strbuilder_fwd( t, b ) ); } break;
	case CT_Struct: routes<CodeStruct>( c, text, struct_to_strbuilder, struct_to_strbuilder_def ); { CodeStruct t = (CodeStruct)c; APP( t.to_strbuilder_def( b ) ); APP( to_strbuilder_def( t, b ) ); } break;
	case CT_Struct_Fwd: routes<CodeStruct>( c, text, struct_to_strbuilder, struct_to_strbuilder_fwd ); { CodeStruct t = (CodeStruct)c; APP( t.to_strbuilder_fwd( b ) ); APP( to_strbuilder_fwd( t, b ) ); } break;
	case CT_Union: routes<CodeUnion>( c, text, union_to_strbuilder, union_to_strbuilder_def ); { CodeUnion t = (CodeUnion)c; APP( t.to_strbuilder_def( b ) ); APP( to_strbuilder_def( t, b ) ); } break;
	case CT_Union_Fwd: routes<CodeUnion>( c, text, union_to_strbuilder, union_to_strbuilder_fwd ); { CodeUnion t = (CodeUnion)c; APP( t.to_strbuilder_fwd( b ) ); APP( to_strbuilder_fwd( t, b ) ); } break;
	case CT_Enum: routes<CodeEnum>( c, text, enum_to_strbuilder, enum_to_strbuilder_def ); { CodeEnum t = (CodeEnum)c; APP( t.to_strbuilder_def( b ) ); APP( to_strbuilder_def( t, b ) ); } break;
	case CT_Enum_Fwd: routes<CodeEnum>( c, text, enum_to_strbuilder, enum_to_strbuilder_fwd ); { CodeEnum t = (CodeEnum)c; APP( t.to_strbuilder_fwd( b ) ); APP( to_strbuilder_fwd( t, b ) ); } break;
	case CT_Enum_Class: routes<CodeEnum>( c, text, enum_to_strbuilder, enum_to_strbuilder_class_def ); { CodeEnum t = (CodeEnum)c; APP( t.to_strbuilder_class_def( b ) ); APP( to_strbuilder_class_def( t, b ) ); } break;
	case CT_Enum_Class_Fwd: routes<CodeEnum>( c, text, enum_to_strbuilder, enum_to_strbuilder_class_fwd ); { CodeEnum t = (CodeEnum)c; APP( t.to_strbuilder_class_fwd( b ) ); APP( to_strbuilder_class_fwd( t, b ) ); } break;
	case CT_Constructor: routes<CodeConstructor>( c, text, constructor_to_strbuilder, constructor_to_strbuilder_def ); { CodeConstructor t = (CodeConstructor)c; APP( t.to_strbuilder_def( b ) ); APP( to_strbuilder_def( t, b ) ); } break;
	case CT_Constructor_Fwd: routes<CodeConstructor>( c, text, constructor_to_strbuilder, constructor_to_strbuilder_fwd ); { CodeConstructor t = (CodeConstructor)c; APP( t.to_strbuilder_fwd( b ) ); APP( to_strbuilder_fwd( t, b ) ); } break;
	case CT_Destructor: routes<CodeDestructor>( c, text, destructor_to_strbuilder, destructor_to_strbuilder_def ); { CodeDestructor t = (CodeDestructor)c; APP( t.to_strbuilder_def( b ) ); APP( to_strbuilder_def( t, b ) ); } break;
	case CT_Destructor_Fwd: routes<CodeDestructor>( c, text, destructor_to_strbuilder, destructor_to_strbuilder_fwd ); { CodeDestructor t = (CodeDestructor)c; APP( t.to_strbuilder_fwd( b ) ); APP( to_strbuilder_fwd( t, b ) ); } break;
	case CT_Function: routes<CodeFn>( c, text, fn_to_strbuilder, fn_to_strbuilder_def ); { CodeFn t = (CodeFn)c; APP( t.to_strbuilder_def( b ) ); APP( to_strbuilder_def( t, b ) ); } break;
	case CT_Function_Fwd: routes<CodeFn>( c, text, fn_to_strbuilder, fn_to_strbuilder_fwd ); { CodeFn t = (CodeFn)c; APP( t.to_strbuilder_fwd( b ) ); APP( to_strbuilder_fwd( t, b ) ); } break;
	case CT_Operator: case CT_Operator_Member: routes<CodeOperator>( c, text, code_op_to_strbuilder, code_op_to_strbuilder_def ); { CodeOperator t = (CodeOperator)c; APP( t.to_strbuilder_def( b ) ); APP( to_strbuilder_def( t, b ) ); } break;
	case CT_Operator_Fwd: case CT_Operator_Member_Fwd: routes<CodeOperator>( c, text, code_op_to_strbuilder, code_op_to_strbuilder_fwd ); { CodeOperator t = (CodeOperator)c; APP( t.to_strbuilder_fwd( b ) ); APP( to_strbuilder_fwd( t, b ) ); } break;
	case CT_Operator_Cast: routes<CodeOpCast>( c, text, opcast_to_strbuilder, opcast_to_strbuilder_def ); { CodeOpCast t = (CodeOpCast)c; APP( t.to_strbuilder_def( b ) ); APP( to_strbuilder_def( t, b ) ); } break;
	case CT_Operator_Cast_Fwd: routes<CodeOpCast>( c, text, opcast_to_strbuilder, opcast_to_strbuilder_fwd ); { CodeOpCast t = (CodeOpCast)c; APP( t.to_strbuilder_fwd( b ) ); APP( to_strbuilder_fwd( t, b ) ); } break;
	case CT_Extern_Linkage: { CodeExtern t = (CodeExtern)c; APP( extern_to_strbuilder( t, & b ) ); APP( t.to_strbuilder( b ) ); APP( to_strbuilder( t, b ) ); break; }
	case CT_Friend: routes<CodeFriend>( c, text, friend_to_strbuilder, friend_to_strbuilder_ref ); { CodeFriend t = (CodeFriend)c; APP( t.to_strbuilder( b ) ); APP( to_strbuilder( t, b ) ); } break;
	case CT_Module: routes<CodeModule>( c, text, module_to_strbuilder, module_to_strbuilder_ref ); { CodeModule t = (CodeModule)c; APP( t.to_strbuilder( b ) ); APP( to_strbuilder( t, b ) ); } break;
	case CT_Namespace: routes<CodeNS>( c, text, namespace_to_strbuilder, namespace_to_strbuilder_ref ); { CodeNS t = (CodeNS)c; APP( t.to_strbuilder( b ) ); APP( to_strbuilder( t, b ) ); } break;
	case CT_Parameters: routes<CodeParams>( c, text, params_to_strbuilder, params_to_strbuilder_ref ); { CodeParams t = (CodeParams)c; APP( t.to_strbuilder( b ) ); APP( to_strbuilder( t, b ) ); } break;
	case CT_Parameters_Define: routes<CodeDefineParams>( c, text, define_params_to_strbuilder, define_params_to_strbuilder_ref ); { CodeDefineParams t = (CodeDefineParams)c; APP( t.to_strbuilder( b ) ); APP( to_strbuilder( t, b ) ); } break;
	case CT_Preprocess_Define: { CodeDefine t = (CodeDefine)c; same( c, "define_to_strbuilder", gx::X( define_to_strbuilder( t ) ), text ); same( c, "its member", gx::X( t.to_strbuilder() ), text ); APP( define_to_strbuilder_ref( t, & b ) ); APP( t.to_strbuilder( b ) ); APP( to_strbuilder( t, b ) ); break; }
	case CT_Preprocess_Include: routes<CodeInclude>( c, text, include_to_strbuilder, include_to_strbuilder_ref ); { CodeInclude t = (CodeInclude)c; APP( t.to_strbuilder( b ) ); APP( to_strbuilder( t, b ) ); } break;
	case CT_Preprocess_Pragma: routes<CodePragma>( c, text, pragma_to_strbuilder, pragma_to_strbuilder_ref ); { CodePragma t = (CodePragma)c; APP( t.to_strbuilder( b ) ); APP( to_strbuilder( t, b ) ); } break;
	case CT_Preprocess_If: routes<CodePreprocessCond>( c, text, preprocess_to_strbuilder, preprocess_to_strbuilder_if ); { CodePreprocessCond t = (CodePreprocessCond)c; APP( t.to_strbuilder_if( b ) ); APP( to_strbuilder_if( t, b ) ); } break;
	case CT_Preprocess_IfDef: routes<CodePreprocessCond>( c, text, preprocess_to_strbuilder, preprocess_to_strbuilder_ifdef ); { CodePreprocessCond t = (CodePreprocessCond)c; APP( t.to_strbuilder_ifdef( b ) ); APP( to_strbuilder_ifdef( t, b ) ); } break;
	case CT_Preprocess_IfNotDef: routes<CodePreprocessCond>( c, text, preprocess_to_strbuilder, preprocess_to_strbuilder_ifndef ); { CodePreprocessCond t = (CodePreprocessCond)c; APP( t.to_strbuilder_ifndef( b ) ); APP( to_strbuilder_ifndef( t, b ) ); } break;
	case CT_Preprocess_ElIf: routes<CodePreprocessCond>( c, text, preprocess_to_strbuilder, preprocess_to_strbuilder_elif ); { CodePreprocessCond t = (CodePreprocessCond)c; APP( t.to_strbuilder_elif( b ) ); APP( to_strbuilder_elif( t, b ) ); } break;
	case CT_Preprocess_Else: routes<CodePreprocessCond>( c, text, preprocess_to_strbuilder, preprocess_to_strbuilder_else ); { CodePreprocessCond t = (CodePreprocessCond)c; APP( t.to_strbuilder_else( b ) ); APP( to_strbuilder_else( t, b ) ); } break;
	case CT_Preprocess_EndIf: routes<CodePreprocessCond>( c, text, preprocess_to_strbuilder, preprocess_to_strbuilder_endif ); { CodePreprocessCond t = (CodePreprocessCond)c; APP( t.to_strbuilder_endif( b ) ); APP( to_strbuilder_endif( t, b ) ); } break;
	case CT_Specifiers: routes<CodeSpecifiers>( c, text, specifiers_to_strbuilder, specifiers_to_strbuilder_ref ); { CodeSpecifiers t = (CodeSpecifiers)c; APP( t.to_strbuilder( b ) ); APP( to_strbuilder( t, b ) ); } break;
	case CT_Template: routes<CodeTemplate>( c, text, template_to_strbuilder, template_to_strbuilder_ref ); { CodeTemplate t = (CodeTemplate)c; APP( t.to_strbuilder( b ) ); APP( to_strbuilder( t, b ) ); } break;
	case CT_Typedef: routes<CodeTypedef>( c, text, typedef_to_strbuilder, typedef_to_strbuilder_ref ); { CodeTypedef t = (CodeTypedef)c; APP( t.to_strbuilder( b ) ); APP( to_strbuilder( t, b ) ); } break;
	case CT_Typename: routes<CodeTypename>( c, text, typename_to_strbuilder, typename_to_strbuilder_ref ); { CodeTypename t = (CodeTypename)c; APP( t.to_strbuilder( b ) ); APP( to_strbuilder( t, b ) ); } break;
	case CT_Using: routes<CodeUsing>( c, text, using_to_strbuilder, using_to_strbuilder_ref ); { CodeUsing t = (CodeUsing)c; APP( t.to_strbuilder( b ) ); APP( to_strbuilder( t, b ) ); } break;
	case CT_Using_Namespace: routes<CodeUsing>( c, text, using_to_strbuilder, using_to_strbuilder_ns ); { CodeUsing t = (CodeUsing)c; APP( t.to_strbuilder_ns( b ) ); APP( to_strbuilder_ns( t, b ) ); } break;
	case CT_Variable: routes<CodeVar>( c, text, var_to_strbuilder, var_to_strbuilder_ref ); { CodeVar t = (CodeVar)c; APP( t.to_strbuilder( b ) ); APP( to_strbuilder( t, b ) ); } break;
	case CT_Export_Body: routes<CodeBody>( c, text, body_to_strbuilder, body_to_strbuilder_export ); { CodeBody t = (CodeBody)c; APP( t.to_strbuilder_export( b ) ); APP( to_strbuilder_export( t, b ) ); } break;
	case CT_Class_Body: case CT_Struct_Body: case CT_Union_Body: case CT_Enum_Body: case CT_Function_Body: case CT_Namespace_Body: case CT_Global_Body: case CT_Extern_Linkage_Body:
		routes<CodeBody>( c, text, body_to_strbuilder, body_to_strbuilder_ref ); { CodeBody t = (CodeBody)c; APP( t.to_strbuilder( b ) ); APP( to_strbuilder( t, b ) ); } break;
	default: break;
	}
}
static void whole( pbt::Gen& g, Code c ) {
	std::string text = gx::X( code_to_strbuilder( c ) ), facts = src::walk( c ); All all; all.add( c ); std::set<int> kinds;
	for ( Code n : all.nodes ) {
		one( n ); if ( kinds.insert( n->Type ).second ) g.label( gx::X( codetype_to_str( n->Type ) ) );
		std::string t = gx::X( code_to_strbuilder( n ) );
		// the whole holds its parts
		if ( code_is_body( n ) ) {
			CodeBody b = (CodeBody)n; std::string o; int num = 0; for ( Code e = begin_CodeBody( b ); e != end_CodeBody( b ); e = next_CodeBody( b, e ), ++num ) o += gx::X( code_to_strbuilder( e ) );
			if ( n->Type == CT_Export_Body ) o = "export\n{\n" + o + "}\n";
			if ( n->Type == CT_Enum_Body ) { auto strip = []( std::string& s ) { s.erase( std::remove( s.begin(), s.end(), '\n' ), s.end() ); }; strip( o ); std::string u = t; strip( u ); same( n, "the entries one by one, new lines aside", o, u ); }
			else same( n, "the entries one by one", o, t );
			PBT_CHECK( code_has_entries( n ) == ( num > 0 ) && n.has_entries() == ( num > 0 ) && n.is_body(), "a body of %d entries says it %s entries", num, code_has_entries( n ) ? "has" : "has no" );
		}
		PBT_CHECK( gx::X( code_type_str( n ) ) == gx::X( codetype_to_str( n->Type ) ) && gx::X( n.type_str() ) == gx::X( codetype_to_str( n->Type ) ), "its kind is called %s", gx::X( n.type_str() ).c_str() );
		if ( n->Type != CT_Preprocess_Define && n->Type != CT_Parameters_Define ) { // the library says of these two that it isn't implemented
			std::string d = gx::X( code_debug_str( n ) ), nm = n->Name.Len ? gx::X( n->Name ) : "Null";
			std::string up = ! n->Parent ? "Null" : gx::X( codetype_to_str( n->Parent->Type ) ) + " " + ( n->Parent->Name.Len ? gx::X( n->Parent->Name ) : "Null" );
			PBT_CHECK( d.find( "\n\tParent       : " + up + "\n" ) == 0, "its debug description does not start with its parent, %s:\n%s", up.c_str(), d.c_str() );
			PBT_CHECK( d.find( "\n\tName         : " + nm + "\n\tType         : " + gx::X( codetype_to_str( n->Type ) ) + "\n" ) != std::string::npos, "its debug description does not give its name, %s, and kind, %s:\n%s", nm.c_str(), gx::X( codetype_to_str( n->Type ) ).c_str(), d.c_str() );
			same( n, "the member, debug_str,", gx::X( n.debug_str() ), d );
		}
		PBT_CHECK( code_is_valid( n ) && n.is_valid(), "it is not valid" );
		bool cd = n->Type == CT_Constructor || n->Type == CT_Constructor_Fwd || n->Type == CT_Destructor || n->Type == CT_Destructor_Fwd; // named after the class they are in
		if ( ! cd && ! ( n->Type == CT_Variable && n->Parent && n->Parent->Type == CT_Variable ) && ! ( n->Parent && ( n->Parent->Type == CT_Typedef || n->Parent->Type == CT_Variable ) ) ) { Code d = code_duplicate( n ); same( n, "a duplicate", gx::X( code_to_strbuilder( d ) ), t ); same( n, "a duplicate made by the member", gx::X( n.duplicate().to_strbuilder() ), t ); }
	}
	same( c, "the whole, afterwards,", gx::X( code_to_strbuilder( c ) ), text );
	PBT_CHECK( src::walk( c ) == facts, "making the text changed it:\n%s\nwas\n%s", src::walk( c ).c_str(), facts.c_str() );
	g.nontrivial = all.nodes.size() > 8;
}
static void parsed( pbt::Gen& g, int max ) {
	fresh(); SG sg( g ); with_macros( sg, 3 ); size_t n = sg.macs.size();
	D d = sg.file( max ); sg.glue( d.s ); std::string text = src::canonical( d.s ); pbt::describe( g, text ); reg_all( sg, n );
	whole( g, (Code)parse( text ) );
}
// the kinds no source text makes, and bodies put together by hand of codes of any kind
static void made( pbt::Gen& g ) {
	fresh(); CodeBody b = def_body( g.pick( std::vector<CodeType>{ CT_Global_Body, CT_Namespace_Body, CT_Class_Body, CT_Struct_Body, CT_Function_Body, CT_Export_Body, CT_Extern_Linkage_Body } ) ); std::string log; int n = (int)g.draw( 6 );
	for ( int i = 0; i < n; ++i ) { int k = 1 + (int)g.draw( CT_NumTypes - 1 ); if ( k == CT_Parameters_Define ) continue; Code c = zoo( k ); if ( code_is_body( c ) ) { whole( g, c ); log += " (" + kind( c ) + ")"; continue; } log += " " + kind( c ); body_append( b, c ); }
	pbt::describe( g, kind( (Code)b ) + " of" + log ); whole( g, (Code)b ); g.nontrivial = n > 2;
}
int main( int argc, char** argv ) {
	return run_main( argc, argv, "C21", "more than 8 nodes were asked for their text", {
		{ "decl", []( pbt::Gen& g ) { parsed( g, 1 ); }, 8000, 200000, 100, 15 }, { "made", made, 4000, 80000, 100, 15 },
		{ "file", []( pbt::Gen& g ) { parsed( g, 6 ); }, 5000, 120000, 100, 20 } } );
}

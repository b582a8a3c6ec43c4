// The codes a code is made of, itself first.
#pragma once
struct All {
	std::vector<Code> nodes; std::set<AST*> seen;
	void add( Code c ) {
		if ( ! c || c == Code_Invalid || c == (Code)t_empty || ! seen.insert( c.ast ).second ) return; nodes.push_back( c );
		if ( code_is_body( c ) ) { CodeBody b = (CodeBody)c; for ( Code e = begin_CodeBody( b ); e != end_CodeBody( b ); e = next_CodeBody( b, e ) ) add( e ); return; }
		switch ( c->Type ) {
		case CT_Class: case CT_Class_Fwd: { CodeClass x = (CodeClass)c; add( x->Attributes ); add( x->Specs ); add( x->ParentType ); if ( c->Type == CT_Class ) add( (Code)x->Body ); break; }
		case CT_Struct: case CT_Struct_Fwd: { CodeStruct x = (CodeStruct)c; add( x->Attributes ); add( x->Specs ); add( x->ParentType ); if ( c->Type == CT_Struct ) add( (Code)x->Body ); break; }
		case CT_Union: add( (Code)((CodeUnion)c)->Body ); add( ((CodeUnion)c)->Attributes ); break;
		case CT_Enum: case CT_Enum_Class: case CT_Enum_Fwd: case CT_Enum_Class_Fwd: { CodeEnum x = (CodeEnum)c; add( x->Attributes ); add( x->UnderlyingType ); add( x->UnderlyingTypeMacro ); if ( c->Type == CT_Enum || c->Type == CT_Enum_Class ) add( (Code)x->Body ); break; }
		case CT_Constructor: { CodeConstructor x = (CodeConstructor)c; add( x->Specs ); add( x->Params ); add( x->InitializerList ); add( x->Body ); break; }
		case CT_Constructor_Fwd: { CodeConstructor x = (CodeConstructor)c; add( x->Specs ); add( x->Params ); break; }
		case CT_Destructor: { CodeDestructor x = (CodeDestructor)c; add( x->Specs ); add( (Code)x->Body ); break; }
		case CT_Function: case CT_Function_Fwd: { CodeFn x = (CodeFn)c; add( x->Attributes ); add( x->Specs ); add( x->ReturnType ); add( x->Params ); add( x->SuffixSpecs ); if ( c->Type == CT_Function ) add( (Code)x->Body ); break; }
		case CT_Operator: case CT_Operator_Fwd: case CT_Operator_Member: case CT_Operator_Member_Fwd: { CodeOperator x = (CodeOperator)c; add( x->Attributes ); add( x->Specs ); add( x->ReturnType ); add( x->Params ); add( (Code)x->Body ); break; }
		case CT_Operator_Cast: case CT_Operator_Cast_Fwd: { CodeOpCast x = (CodeOpCast)c; add( x->Specs ); add( x->ValueType ); if ( c->Type == CT_Operator_Cast ) add( (Code)x->Body ); break; }
		case CT_Extern_Linkage: add( (Code)((CodeExtern)c)->Body ); break;
		case CT_Friend: add( ((CodeFriend)c)->Declaration ); break;
		case CT_Namespace: add( (Code)((CodeNS)c)->Body ); break;
		case CT_Parameters: { for ( CodeParams p = (CodeParams)c; p; p = p->Next ) { add( p->ValueType ); add( p->Value ); add( p->Macro ); add( p->PostNameMacro ); } break; }
		case CT_Preprocess_Define: add( (Code)((CodeDefine)c)->Params ); add( (Code)((CodeDefine)c)->Body ); break;
		case CT_Template: add( ((CodeTemplate)c)->Params ); add( ((CodeTemplate)c)->Declaration ); break;
		case CT_Typedef: add( ((CodeTypedef)c)->UnderlyingType ); break;
		case CT_Typename: { CodeTypename x = (CodeTypename)c; add( x->Attributes ); add( x->Specs ); add( x->ReturnType ); if ( x->ReturnType ) add( x->Params ); add( x->ArrExpr ); break; }
		case CT_Using: add( ((CodeUsing)c)->UnderlyingType ); add( ((CodeUsing)c)->Attributes ); break;
		case CT_Variable: { CodeVar x = (CodeVar)c; add( x->Attributes ); add( x->Specs ); add( (Code)x->ValueType ); add( x->BitfieldSize ); add( x->Value ); add( (Code)x->NextVar ); break; }
		default: break;
		}
	}
};

// gen_src.hpp - a generator of C++ source in the form gencpp documents as parsable, together with
//   s : the tokens handed to the parser
//   e : the tokens its serialization has to consist of (the same, in gencpp's normal form)
//   f : the facts the AST has to hold, in the notation of walk() below
// plus an independent tokenizer (used on the serialized text) and the AST walker.
#pragma once
#include "gencpp.hpp"

namespace src {
using std::string; using std::vector;
using pbt::Gen;

// ---------------------------------------------------------------------------------------------- tokens
struct Tok { string t; char k = 'n'; bool adj = false, near = false; };     // adj: the next token has to follow without a space (>>), near: it does, k: n normal, d directive line, c comment, i comment on the line of the previous token
typedef vector<Tok> Toks;

inline bool idc( char c ) { return isalnum( (unsigned char)c ) || c == '_'; }
inline string squeeze( const string& s ) { string o; for ( char c : s ) { if ( isspace( (unsigned char)c ) ) { if ( o.size() && o.back() != ' ' ) o += ' '; } else o += c; } while ( o.size() && o.back() == ' ' ) o.pop_back(); return o; }

inline void lex( const string& s, Toks& out, bool in_directive = false );
inline string directive( const string& line ) {          // "#define A( x )  y" -> "#define A( x ) y" with single spaces; the ( of a functional define stays marked
	string flat; for ( size_t i = 0; i < line.size(); ++i ) { if ( line[ i ] == '\\' && i + 1 < line.size() && ( line[ i + 1 ] == '\n' || line[ i + 1 ] == '\r' ) ) { ++i; if ( line[ i ] == '\r' && i + 1 < line.size() && line[ i + 1 ] == '\n' ) ++i; flat += ' '; } else flat += line[ i ]; }
	size_t p = 1; while ( p < flat.size() && isspace( (unsigned char)flat[ p ] ) ) ++p;
	size_t q = p; while ( q < flat.size() && idc( flat[ q ] ) ) ++q;
	string word = flat.substr( p, q - p ), rest = flat.substr( q );
	if ( word == "define" ) { size_t a = 0; while ( a < rest.size() && isspace( (unsigned char)rest[ a ] ) ) ++a; size_t b = a; while ( b < rest.size() && idc( rest[ b ] ) ) ++b; word += " " + rest.substr( a, b - a ); if ( b < rest.size() && rest[ b ] == '(' ) word += "@"; rest = rest.substr( b ); }
	Toks t; lex( rest, t, true ); string o = "#" + word; for ( auto& x : t ) o += " " + x.t; return o;
}
inline void lex( const string& s, Toks& out, bool in_directive ) {
	static const char* ops[] = { "...", "<<=", "->*", "->", "++", "--", "&&", "||", "::", "==", "!=", "<=", ">=", "<<", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "##" };
	size_t i = 0, n = s.size(); bool bol = ! in_directive;
	while ( i < n ) {
		char c = s[ i ];
		if ( c == '\n' ) { bol = ! in_directive; ++i; continue; }
		if ( isspace( (unsigned char)c ) ) { ++i; continue; }
		if ( c == '\\' && i + 1 < n && ( s[ i + 1 ] == '\n' || s[ i + 1 ] == '\r' ) ) { ++i; continue; }
		if ( c == '/' && i + 1 < n && s[ i + 1 ] == '/' ) { size_t b = i; while ( i < n && s[ i ] != '\n' ) ++i; out.push_back( { squeeze( s.substr( b, i - b ) ), 'c' } ); continue; }
		if ( c == '/' && i + 1 < n && s[ i + 1 ] == '*' ) { size_t b = i; size_t e = s.find( "*/", i + 2 ); i = e == string::npos ? n : e + 2; out.push_back( { squeeze( s.substr( b, i - b ) ), 'c' } ); continue; }
		if ( c == '#' && bol ) {
			size_t b = i; while ( i < n && s[ i ] != '\n' ) { if ( s[ i ] == '\\' && i + 1 < n ) { if ( s[ i + 1 ] == '\r' && i + 2 < n ) ++i; i += 2; } else ++i; }
			out.push_back( { directive( s.substr( b, i - b ) ), 'd' } ); continue;
		}
		bol = false;
		if ( idc( c ) && ! isdigit( (unsigned char)c ) ) { size_t b = i; while ( i < n && idc( s[ i ] ) ) ++i; out.push_back( { s.substr( b, i - b ) } ); continue; }
		if ( isdigit( (unsigned char)c ) || ( c == '.' && i + 1 < n && isdigit( (unsigned char)s[ i + 1 ] ) ) ) {
			size_t b = i; while ( i < n && ( idc( s[ i ] ) || s[ i ] == '.' || ( ( s[ i ] == '+' || s[ i ] == '-' ) && ( s[ i - 1 ] == 'e' || s[ i - 1 ] == 'E' ) && ! ( s[ b ] == '0' && b + 1 < n && ( s[ b + 1 ] == 'x' || s[ b + 1 ] == 'X' ) ) ) ) ) ++i; out.push_back( { s.substr( b, i - b ) } ); continue;
		}
		if ( c == '"' || c == '\'' ) { size_t b = i++; while ( i < n && s[ i ] != c ) { if ( s[ i ] == '\\' ) ++i; ++i; } ++i; if ( i > n ) i = n; out.push_back( { s.substr( b, i - b ) } ); continue; }
		// a template may end in >>, so the tokens of a shift are kept apart and marked
		if ( c == '>' && i + 1 < n && s[ i + 1 ] == '>' && ( i == 0 || isspace( (unsigned char)s[ i - 1 ] ) ) ) {
			out.push_back( { ">", 'n', i + 2 >= n || s[ i + 2 ] != '>', true } ); ++i; if ( i + 1 < n && s[ i + 1 ] == '=' ) { out.push_back( { ">=" } ); i += 2; } else { out.push_back( { ">" } ); ++i; } continue;
		}
		bool hit = false;
		for ( const char* o : ops ) { size_t l = strlen( o ); if ( s.compare( i, l, o ) == 0 ) { out.push_back( { o } ); i += l; hit = true; break; } }
		if ( ! hit && c == '>' && i + 1 < n && s[ i + 1 ] == '>' ) { out.push_back( { ">", 'n', false, true } ); ++i; continue; }
		if ( ! hit ) { out.push_back( { string( 1, c ) } ); ++i; }
	}
}
inline Toks lex( const string& s ) { Toks t; lex( s, t ); return t; }
inline string join( const Toks& t ) { string o; for ( auto& x : t ) { if ( o.size() ) o += ' '; o += x.t; } return o; }
// the shifts of want are still in one piece
inline bool shifts_intact( const Toks& have, const Toks& want ) { for ( size_t i = 0; i < want.size() && i < have.size(); ++i ) if ( want[ i ].adj && ! have[ i ].near ) return false; return true; }
inline string norm( const string& s ) { return join( lex( s ) ); }

// ---------------------------------------------------------------------------------------------- declarations
struct D {
	Toks s, e; string f;
	D& in ( const string& x ) { lex( x, s ); return *this; }
	D& out( const string& x ) { lex( x, e ); return *this; }
	D& t  ( const string& x ) { lex( x, s ); lex( x, e ); return *this; }
	D& one( const string& x ) { s.push_back( { x, 'n' } ); lex( x, e ); return *this; }        // spelled in one piece
	D& raw( const string& x, char k ) { string v = k == 'd' ? directive( x ) : squeeze( x ); s.push_back( { x, k } ); e.push_back( { v, k == 'i' ? 'c' : k } ); return *this; }
	D& cat( const D& o ) { s.insert( s.end(), o.s.begin(), o.s.end() ); e.insert( e.end(), o.e.begin(), o.e.end() ); return *this; }
	D& seq( const D& o ) { cat( o ); f += o.f; return *this; }
};
inline D both( const string& x ) { D d; d.t( x ); return d; }

// ---------------------------------------------------------------------------------------------- rendering
struct Style { int ws = 0; bool comments = false; };    // ws: 0 canonical, 1 random, 2 tight (no space wherever none is needed)
inline bool may_join( const string& a, const string& b ) { if ( a == "#" ) return false; Toks t = lex( a + b ); return t.size() == 2 && t[ 0 ].t == a && t[ 1 ].t == b; }
inline string render( Gen* g, const Toks& t, Style st ) {
	string o; int depth = 0;
	for ( size_t i = 0; i < t.size(); ++i ) {
		const Tok& x = t[ i ];
		if ( i ) {
			const Tok& p = t[ i - 1 ];
			bool nl = x.k == 'd' || x.k == 'c' || p.k == 'd' || p.k == 'c' || p.k == 'i';
			string sep;
			if ( p.adj ) sep = "";
			else if ( x.k == 'i' ) sep = st.ws == 2 ? "" : " ";
			else if ( nl ) { sep = "\n"; if ( st.ws == 1 ) { sep = g->pick( { "\n", "\n\n", "\r\n", "\n\t", "\n   " } ); } }
			else if ( st.ws == 0 ) sep = p.t == ";" || p.t == "{" || p.t == "}" ? "\n" : " ";
			else {
				int k = st.ws == 2 ? 0 : (int)g->draw( 9 );
				static const char* w[] = { "", " ", " ", "\n", "\t", "  ", "\r\n", " \n\t", "\n\n" };
				sep = w[ k ]; if ( sep.empty() && ! may_join( p.t, x.t ) ) sep = st.ws == 2 && g && g->coin( 1, 4 ) ? "\n" : " ";
			}
			o += sep;
		}
		o += x.t;
	}
	return o + "\n"; (void)depth;
}
inline string canonical( const Toks& t ) { return render( nullptr, t, Style{} ); }

// ---------------------------------------------------------------------------------------------- AST -> facts
using namespace gen;
inline string str( Str s ) { return norm( gx::X( s ) ); }
inline string walk( Code c );
inline string specs( CodeSpecifiers sp ) { string o; if ( ! sp ) return o; for ( int i = 0; i < sp->NumEntries; ++i ) { if ( o.size() ) o += ","; o += gx::X( spec_to_str( sp->ArrSpecs[ i ] ) ); } return o; }
inline string params( CodeParams p );
inline string arr( Code a ) { string o; while ( a ) { o += "[" + str( a->Content ) + "]"; a = a->Next; } return o; }
inline string ty( CodeTypename t ) {
	if ( ! t ) return "-";
	if ( (Code)t == Code_Invalid || t->Type != CT_Typename ) return "{" + walk( (Code)t ) + "}";
	string tag = t->TypeTag == Tag_Class ? "class " : t->TypeTag == Tag_Struct ? "struct " : t->TypeTag == Tag_Enum ? "enum " : t->TypeTag == Tag_Union ? "union " : "";
	if ( t->ReturnType ) return "fn<" + ty( t->ReturnType ) + "|" + str( t->Name ) + "|" + params( t->Params ) + ">";
	return ( t->Attributes ? "A!" + str( t->Attributes->Content ) + " " : "" ) + tag + str( t->Name ) + "<" + specs( t->Specs ) + ">" + ( t->IsParamPack ? "..." : "" ) + arr( t->ArrExpr );
}
inline string param( const string& type, const string& name, const string& value, const string& macro = "", const string& post = "" ) { return "(" + ( macro.size() ? macro + "!" : "" ) + type + " " + name + ( post.size() ? "!" + post : "" ) + ( value.size() ? "=" + value : "" ) + ")"; }
inline string params( CodeParams p ) {
	string o; if ( ! p ) return o; int left = p->NumEntries, n = 0;
	for ( CodeParams q = p; q && n < left; q = q->Next, ++n ) o += param( ty( q->ValueType ), str( q->Name ), q->Value ? str( q->Value->Content ) : "", q->Macro ? str( q->Macro->Content ) : "", q->PostNameMacro ? str( q->PostNameMacro->Content ) : "" );
	if ( n != left ) o += "!count"; CodeParams last = p; while ( last->Next ) last = last->Next; if ( p->Last && p->Last != last ) o += "!last"; return o;
}
// The links of a body: count, order both ways, ends, parent, and the kind of body its owner has.
inline string links( CodeBody b, CodeType kind ) {
	if ( b->Type != kind ) return "!kind"; int n = 0; Code last = NullCode;
	for ( Code c = begin_CodeBody( b ); c != end_CodeBody( b ) && n <= b->NumEntries; c = next_CodeBody( b, c ), ++n ) { if ( c->Parent != (Code)b ) return "!parent"; if ( last ? c->Prev != last : c != b->Front ) return "!order"; last = c; }
	return n != b->NumEntries ? "!count" : n && last != b->Back ? "!back" : "";
}
inline string body( CodeBody b, CodeType kind ) { if ( ! b ) return "-"; string o = links( b, kind ) + "{"; for ( Code c = begin_CodeBody( b ); c != end_CodeBody( b ); c = next_CodeBody( b, c ) ) { if ( c->Type == CT_NewLine ) continue; o += walk( c ) + " "; } return o + "}"; }
inline string text_body( Code b ) { if ( ! b ) return "-"; if ( b->Type == CT_Untyped || b->Type == CT_Execution ) return "`" + str( b->Content ) + "`"; CodeBody bb = (CodeBody)b; string o = links( bb, CT_Function_Body ); for ( Code c = begin_CodeBody( bb ); c != end_CodeBody( bb ); c = next_CodeBody( bb, c ) ) o += ( o.size() ? " " : "" ) + str( c->Content ); return "{" + o + "}"; }
inline string cmt( CodeComment c ) { return c ? " //" + squeeze( gx::X( ((Code)c)->Content ) ) : ""; }
inline string mod( ModuleFlag m ) { return bitfield_is_set( u32, m, ModuleFlag_Export ) ? "export " : ""; }
inline string attr( CodeAttributes a ) { return a ? "A=" + str( a->Content ) + " " : ""; }
inline string acc( AccessSpec a ) { return a == AccessSpec_Public ? "public" : a == AccessSpec_Private ? "private" : a == AccessSpec_Protected ? "protected" : "default"; }
inline bool is_of( Code owner, Code c ) { return owner && owner->Type == c->Type && owner->Name.Len == c->Name.Len && owner->Name.Ptr == c->Name.Ptr; }   // the owner, or what it was copied from
inline string vars( CodeVar v ) { string o; for ( ; v; v = v->NextVar ) o += ( v->NextVar && ! is_of( (Code)v->NextVar->Parent, (Code)v ) ? "!follows" : "" ) + string( ",<" ) + str( v->Name ) + "|" + specs( v->Specs ) + "|" + ( v->ValueType ? arr( v->ValueType->ArrExpr ) : "" ) + "|" + ( v->VarParenthesizedInit ? "(" : "" ) + ( v->Value ? str( v->Value->Content ) : "" ) + "|" + ( v->BitfieldSize ? str( v->BitfieldSize->Content ) : "" ) + ">"; return o; }
inline string fvar( const string& m, const string& a, const string& sp, const string& type, const string& name, const string& bits, const string& val, bool paren, const string& next, const string& c ) { return "var[" + m + a + "S=" + sp + " T=" + type + " N=" + name + ( bits.size() ? " B=" + bits : "" ) + ( val.size() ? ( paren ? " P=" : " V=" ) + val : "" ) + next + c + "]"; }
inline string ffn( const string& m, const string& a, const string& sp, const string& ret, const string& name, const string& ps, const string& b, const string& c ) { return "fn[" + m + a + "S=" + sp + " R=" + ret + " N=" + name + " P=" + ps + " " + b + c + "]"; }
inline string fop( const string& m, const string& a, const string& sp, const string& ret, const string& name, const string& ps, const string& b, const string& c ) { return "op[" + m + a + "S=" + sp + " R=" + ret + " N=" + name + " P=" + ps + " " + b + c + "]"; }
inline string fcls( const string& kw, const string& m, const string& a, const string& name, const string& fin, const string& bases, const string& b, const string& c ) { return kw + "[" + m + a + name + fin + bases + b + c + "]"; }
inline string bases( CodeTypename p, AccessSpec a ) { string o; if ( ! p ) return o; o = " :" + acc( a ) + " " + ty( p ); for ( Code n = p->Next; n; n = n->Next ) o += "," + ty( (CodeTypename)n ); return o; }
inline string fenum( const string& kw, const string& m, const string& a, const string& name, const string& under, const string& b, const string& c ) { return kw + "[" + m + a + name + ( under.size() ? ":" + under : "" ) + b + c + "]"; }
inline string ebody( CodeBody b ) { if ( ! b ) return "-"; string o = links( b, CT_Enum_Body ); for ( Code c = begin_CodeBody( b ); c != end_CodeBody( b ); c = next_CodeBody( b, c ) ) if ( c->Type != CT_NewLine ) { Toks t = lex( gx::X( code_to_strbuilder( c ) ) ); for ( auto& x : t ) o += ( o.size() ? " " : "" ) + x.t; } return "{" + o + "}"; }

inline string opname( Operator op, CodeType t ) { bool un = op == Op_Unary_Plus || op == Op_Unary_Minus || op == Op_Indirection || op == Op_AddressOf; return " O=" + gx::X( operator_to_str( op ) ) + ( un ? "u" : "" ); }
inline string walk( Code c ) {
	if ( ! c ) return "-";
	switch ( c->Type ) {
	case CT_Invalid: return "INVALID";
	case CT_Global_Body: return body( (CodeBody)c, CT_Global_Body );
	case CT_Untyped: return "raw[" + str( c->Content ) + "]";
	case CT_Execution: return "exec[" + str( c->Content ) + "]";
	case CT_Comment: return "cmt[" + squeeze( gx::X( c->Content ) ) + "]";
	case CT_Access_Public: return "public:"; case CT_Access_Protected: return "protected:"; case CT_Access_Private: return "private:";
	case CT_Preprocess_Include: return "include[" + str( c->Content ) + "]";
	case CT_Preprocess_Pragma: return "pragma[" + str( c->Content ) + "]";
	case CT_Preprocess_If: return "if[" + str( c->Content ) + "]"; case CT_Preprocess_IfDef: return "ifdef[" + str( c->Content ) + "]"; case CT_Preprocess_IfNotDef: return "ifndef[" + str( c->Content ) + "]";
	case CT_Preprocess_ElIf: return "elif[" + str( c->Content ) + "]"; case CT_Preprocess_Else: return "else"; case CT_Preprocess_EndIf: return "endif";
	case CT_Preprocess_Define: { CodeDefine d = (CodeDefine)c; string ps; if ( d->Params ) { int n = d->Params->NumEntries; for ( CodeDefineParams p = d->Params; p && n-- > 0; p = p->Next ) ps += str( p->Name ) + ","; ps = "(" + ps + ")"; } return "define[" + str( d->Name ) + ps + " " + ( d->Body ? str( d->Body->Content ) : "" ) + "]"; }
	case CT_Variable: { CodeVar v = (CodeVar)c; return fvar( mod( v->ModuleFlags ), attr( v->Attributes ), specs( v->Specs ), ty( v->ValueType ), str( v->Name ), v->BitfieldSize ? str( v->BitfieldSize->Content ) : "", v->Value ? str( v->Value->Content ) : "", v->VarParenthesizedInit, ( v->NextVar && ! is_of( (Code)v->NextVar->Parent, c ) ? "!follows" : "" ) + vars( v->NextVar ), cmt( v->InlineCmt ) ); }
	case CT_Function: case CT_Function_Fwd: { CodeFn f = (CodeFn)c; return ffn( mod( f->ModuleFlags ), attr( f->Attributes ), specs( f->Specs ) + ( f->SuffixSpecs ? "!" + str( f->SuffixSpecs->Content ) : "" ), ty( f->ReturnType ), str( f->Name ), params( f->Params ), c->Type == CT_Function ? text_body( (Code)f->Body ) : "fwd", cmt( f->InlineCmt ) ); }
	case CT_Operator: case CT_Operator_Fwd: case CT_Operator_Member: case CT_Operator_Member_Fwd: { CodeOperator f = (CodeOperator)c; return fop( mod( f->ModuleFlags ), attr( f->Attributes ), specs( f->Specs ), ty( f->ReturnType ), str( f->Name ) + opname( f->Op, c->Type ), params( f->Params ), f->Body ? text_body( (Code)f->Body ) : "fwd", cmt( f->InlineCmt ) ); }
	case CT_Operator_Cast: case CT_Operator_Cast_Fwd: { CodeOpCast f = (CodeOpCast)c; return "cast[S=" + specs( f->Specs ) + " N=" + str( f->Name ) + " T=" + ty( f->ValueType ) + " " + ( c->Type == CT_Operator_Cast ? text_body( (Code)f->Body ) : "fwd" ) + cmt( f->InlineCmt ) + "]"; }
	case CT_Constructor: case CT_Constructor_Fwd: { CodeConstructor f = (CodeConstructor)c; return "ctor[S=" + specs( f->Specs ) + " P=" + params( f->Params ) + " I=" + ( f->InitializerList ? str( f->InitializerList->Content ) : "" ) + " " + ( c->Type == CT_Constructor ? text_body( f->Body ) : f->Body ? "=" + str( f->Body->Content ) : string( "fwd" ) ) + cmt( f->InlineCmt ) + "]"; }
	case CT_Destructor: case CT_Destructor_Fwd: { CodeDestructor f = (CodeDestructor)c; return "dtor[S=" + specs( f->Specs ) + " " + ( c->Type == CT_Destructor ? text_body( (Code)f->Body ) : f->Body ? "=" + str( ((Code)f->Body)->Content ) : string( "fwd" ) ) + cmt( f->InlineCmt ) + "]"; }
	case CT_Class: case CT_Class_Fwd: { CodeClass f = (CodeClass)c; return fcls( "class", mod( f->ModuleFlags ), attr( f->Attributes ), str( f->Name ), f->Specs && specifiers_has( f->Specs, Spec_Final ) ? " final" : "", bases( f->ParentType, f->ParentAccess ), c->Type == CT_Class ? string( is_of( (Code)f->Body->Parent, c ) ? "" : "!owner" ) + body( f->Body, CT_Class_Body ) : " fwd", cmt( f->InlineCmt ) ); }
	case CT_Struct: case CT_Struct_Fwd: { CodeStruct f = (CodeStruct)c; return fcls( "struct", mod( f->ModuleFlags ), attr( f->Attributes ), str( f->Name ), f->Specs && specifiers_has( f->Specs, Spec_Final ) ? " final" : "", bases( f->ParentType, f->ParentAccess ), c->Type == CT_Struct ? string( is_of( (Code)f->Body->Parent, c ) ? "" : "!owner" ) + body( f->Body, CT_Struct_Body ) : " fwd", cmt( f->InlineCmt ) ); }
	case CT_Union: case CT_Union_Fwd: { CodeUnion f = (CodeUnion)c; return fcls( "union", mod( f->ModuleFlags ), attr( f->Attributes ), str( f->Name ), "", "", c->Type == CT_Union ? body( f->Body, CT_Union_Body ) : " fwd", "" ); }
	case CT_Enum: case CT_Enum_Fwd: case CT_Enum_Class: case CT_Enum_Class_Fwd: { CodeEnum f = (CodeEnum)c; bool cl = c->Type == CT_Enum_Class || c->Type == CT_Enum_Class_Fwd; return fenum( cl ? "enumclass" : "enum", mod( f->ModuleFlags ), attr( f->Attributes ), str( f->Name ), f->UnderlyingType ? ty( f->UnderlyingType ) : f->UnderlyingTypeMacro ? "M!" + str( f->UnderlyingTypeMacro->Content ) : "", c->Type == CT_Enum || c->Type == CT_Enum_Class ? ebody( f->Body ) : " fwd", cmt( f->InlineCmt ) ); }
	case CT_Namespace: { CodeNS f = (CodeNS)c; return "ns[" + mod( f->ModuleFlags ) + str( f->Name ) + body( f->Body, CT_Namespace_Body ) + "]"; }
	case CT_Extern_Linkage: { CodeExtern f = (CodeExtern)c; return "extern[" + str( f->Name ) + body( f->Body, CT_Extern_Linkage_Body ) + "]"; }
	case CT_Export_Body: return "export[" + body( (CodeBody)c, CT_Export_Body ) + "]";
	case CT_Friend: { CodeFriend f = (CodeFriend)c; return "friend[" + walk( f->Declaration ) + cmt( f->InlineCmt ) + "]"; }
	case CT_Template: { CodeTemplate f = (CodeTemplate)c; return "tmpl[" + mod( f->ModuleFlags ) + params( f->Params ) + walk( f->Declaration ) + "]"; }
	case CT_Typedef: { CodeTypedef f = (CodeTypedef)c; string u = f->UnderlyingType->Type == CT_Typename ? ty( (CodeTypename)f->UnderlyingType ) : walk( f->UnderlyingType ); return "typedef[" + mod( f->ModuleFlags ) + str( f->Name ) + "=" + u + ( f->IsFunction == ( u.compare( 0, 3, "fn<" ) == 0 ) ? "" : "!function" ) + ( f->UnderlyingType == (Code)t_empty || is_of( f->UnderlyingType->Parent, c ) ? "" : "!parent" ) + cmt( f->InlineCmt ) + "]"; }
	case CT_Using: case CT_Using_Namespace: { CodeUsing f = (CodeUsing)c; return string( c->Type == CT_Using ? "using[" : "usingns[" ) + mod( f->ModuleFlags ) + str( f->Name ) + ( f->Attributes ? " " + attr( f->Attributes ) : "" ) + ( f->UnderlyingType ? "=" + ty( f->UnderlyingType ) : "" ) + cmt( f->InlineCmt ) + "]"; }
	case CT_Typename: return "type " + ty( (CodeTypename)c );
	default: return "?" + std::to_string( (int)c->Type );
	}
}

// ---------------------------------------------------------------------------------------------- generator
struct Type { D d; string f; bool is_void = false, tag = false; };      // d.s / d.e tokens
struct SG {
	Gen& g; int fresh = 0;
	bool inl_comments = true, comments = true, directives = true, macros = true, attrs_on = true;
	explicit SG( Gen& g_ ) : g( g_ ) {}

	string ident() {
		static const vector<string> pool = { "a", "b", "x", "y", "foo", "Bar", "B1", "_x", "value_2", "int_x", "classy", "operatorx", "finale", "T", "U", "enumx", "publicity", "constant", "newline", "_", "A", "Vec3", "my_long_identifier_name_42", "if_", "deleted", "defaulted", "thisone", "structural", "u8", "s32", "moduleX", "staticfn", "externals", "ident0", "virtualize", "usingx" };
		return g.pick( pool );
	}
	// -------- registered macros, when there are any: functional ones are called, with the parenthesis next to the name
	struct Mac { string n; char kind; bool fn, body, ident, attr, def, spec; };       // kind: s statement, e expression, t typename
	vector<Mac> macs; int uses = 0, plain = 0;
	template<class P> const Mac* mac( P ok, int den = 1 ) { if ( macs.empty() || ! g.coin( 1, den ) ) return nullptr; vector<const Mac*> c; for ( auto& m : macs ) if ( ok( m ) ) c.push_back( &m ); return c.empty() ? nullptr : c[ g.draw( c.size() ) ]; }
	string mcall( const Mac* m ) {
		++uses; if ( ! m->fn ) return m->n; string a; int n = (int)g.draw( 4 );
		for ( int i = 0; i < n; ++i ) { a += i ? ", " : " "; switch ( g.draw( 7 ) ) { default: a += ident(); break; case 1: a += num(); break; case 2: a += strlit(); break; case 3: a += "( " + ident() + ", " + num() + " )"; break; case 4: a += "const " + ident() + "*"; break; case 5: a += ident() + "< int >::" + ident(); break; case 6: a += "{ " + num() + " }"; break; } }
		return m->n + "(" + a + " )";
	}
	// a name that is a macro which may be one, or a functional macro that isn't called: stands for itself
	string name_( bool call = false ) {       // call: a ( follows at once
		if ( auto m = mac( [&]( const Mac& m ) { return ( ( m.ident && m.kind != 's' && ! m.fn ) || ( m.fn && ! call ) ); }, 4 ) ) { ++plain; return m->n; }
		return uniq();
	}
	void glue( Toks& s ) { for ( size_t i = 0; i + 1 < s.size(); ++i ) if ( s[ i ].k == 'n' && s[ i + 1 ].t == "(" ) for ( auto& m : macs ) if ( m.n == s[ i ].t && m.fn ) s[ i ].adj = true; }
	// an attribute macro between the type and the name is printed in front of everything
	void mid_attr( D& d, string& a, bool exported ) { if ( a.size() || of_union || ! mid_attrs ) return; if ( auto m = mac( []( const Mac& m ) { return m.attr && m.kind != 's'; }, 5 ) ) { string x = mcall( m ); d.in( x ); Toks t; lex( x, t ); d.e.insert( d.e.begin() + ( exported ? 1 : 0 ), t.begin(), t.end() ); a = "A=" + norm( x ) + " "; } }
	D mstat() {       // a statement macro as a declaration
		D d; auto m = mac( []( const Mac& m ) { return m.kind == 's' && ! m.attr && ! m.spec; } ); if ( ! m ) return var( in_member );
		d.t( mcall( m ) ); if ( m->body ) { D q; block( q, 1 ); d.cat( q ); } else if ( g.coin() ) d.t( ";" );
		d.f = "raw[" + join( d.e ) + "]"; return d;
	}
	D mdef() {        // a macro that stands for the definition
		D d; auto m = mac( []( const Mac& m ) { return m.kind == 's' && m.def; } ); if ( ! m ) return mstat();
		string a = attrs( d, 4 ), sp = in_member ? g.pick( { "static", "inline", "constexpr" } ) : g.pick( { "static", "inline", "constexpr", "extern" } ); d.t( sp ); d.t( mcall( m ) );
		if ( m->body ) { D q; block( q, 1 ); d.cat( q ); } else d.t( ";" ); d.f = "raw[" + join( d.e ) + "]"; return d;
	}
	vector<string> names;          // taken, once each, by some of the declarations
	string uniq() { if ( names.size() && g.coin() ) { string n = names.back(); names.pop_back(); return n; } return ident() + "_" + std::to_string( fresh++ ); }
	string qual() { string q = ident(); while ( g.coin( 1, 3 ) ) q += "::" + ident(); return q; }

	// -------- expressions
	string num() { return g.pick( { "0", "1", "42", "0x1F", "1.5f", "100u", "077", "2.0", "0b101", "123456789ull", "1e5", "0xFFul" } ); }
	string strlit() { return g.pick( { "\"s\"", "\"\"", "\"a b\"", "\"q\\\"q\"", "\"back\\\\\"", "\"// no\"", "\"/* no */\"", "\"; } ) ]\"", "\"tab\\t\\n\"", "\"#define x\"", "\"'\"", "\"%d %s\"" } ); }
	string chr() { return g.pick( { "'c'", "'\\''", "'\\\\'", "'\"'", "';'", "'{'", "'}'", "')'", "'('", "'\\n'", "'\\0'", "','", "'/'", "'#'" } ); }
	string prim( int d, bool lt ) {
		if ( auto m = mac( []( const Mac& m ) { return m.kind == 'e'; }, 6 ) ) return mcall( m );
		switch ( g.draw( d > 0 ? 14 : 5 ) ) {
		case 0: return num(); case 1: return ident(); case 2: return strlit(); case 3: return chr(); case 4: return qual();
		case 5: { string s = qual() + "("; int n = (int)g.draw( 3 ); for ( int i = 0; i < n; ++i ) s += ( i ? ", " : " " ) + expr( d - 1, lt ); return s + " )"; }
		case 6: return "( " + expr( d - 1, true ) + " )";
		case 7: return string( g.pick( { "-", "!", "~", "*", "&", "+" } ) ) + ident();
		case 8: return "sizeof( " + string( g.pick( { "int", "Foo", "char*" } ) ) + " )";
		case 9: return ident() + "[ " + expr( d - 1, lt ) + " ]";
		case 10: return ident() + g.pick( { ".", "->" } ) + ident();
		case 11: return "( " + expr( d - 1, true ) + " ? " + expr( d - 1, true ) + " : " + expr( d - 1, true ) + " )";
		case 12: return "(int)" + ident();
		default: return ident() + "{ " + expr( d - 1, lt ) + ", " + expr( d - 1, lt ) + " }";
		}
	}
	string expr( int d, bool lt ) {
		string s = prim( d, lt );
		while ( d > 0 && g.coin( 1, 3 ) ) { s += string( " " ) + ( lt ? g.pick( { "+", "-", "*", "/", "%", "&", "|", "^", "&&", "||", "==", "!=", "<<", ">>", "<", ">", "<=", ">=" } ) : g.pick( { "+", "-", "*", "/", "%", "&", "|", "^", "&&", "||", "==", "!=" } ) ) + " " + prim( d - 1, lt ); }
		return s;
	}
	// -------- function bodies: kept as text, so anything balanced
	void stmt( D& d, int depth ) {
		switch ( g.draw( depth > 0 ? 12 : 7 ) ) {
		case 0: d.t( "return " + expr( 2, true ) + ";" ); break;
		case 1: d.t( ident() + " " + g.pick( { "=", "+=", "<<=", "->x =", "= -" } ) + " " + expr( 2, true ) + ";" ); break;
		case 2: d.t( "int " + ident() + " = " + expr( 1, true ) + ";" ); break;
		case 3: d.t( qual() + "( " + expr( 1, true ) + " );" ); break;
		case 4: if ( comments ) d.raw( g.pick( { "// note }", "/* { */", "// it's \"odd", "/* two\n lines */", "// ;" } ), 'c' ); else d.t( ";" ); break;
		case 5: d.t( "static_cast<" + ident() + "<int>>( " + expr( 1, false ) + " );" ); break;
		case 6: if ( directives ) { d.raw( "#if " + ident(), 'd' ); d.t( ident() + "++;" ); d.raw( "#endif", 'd' ); } else d.t( "--" + ident() + ";" ); break;
		case 7: d.t( "if ( " + expr( 1, true ) + " )" ); block( d, depth - 1 ); if ( g.coin( 1, 3 ) ) { d.t( "else" ); block( d, depth - 1 ); } break;
		case 8: d.t( "for ( int i = 0; i < " + num() + "; ++i )" ); block( d, depth - 1 ); break;
		case 9: d.t( "while ( " + expr( 1, true ) + " )" ); block( d, depth - 1 ); break;
		case 10: d.t( "auto " + ident() + " = [&]( int a )" ); block( d, depth - 1 ); d.t( ";" ); break;
		default: d.t( "struct Local" ); block( d, depth - 1 ); d.t( ";" ); break;
		}
	}
	void block( D& d, int depth ) { d.t( "{" ); int n = (int)g.draw( 4 ); while ( n-- ) stmt( d, depth ); d.t( "}" ); }
	// { ... } of a definition; gives the fact text (tokens between the braces)
	string fbody( D& d ) {
		D b; int n = g.coin( 1, 4 ) ? 0 : 1 + (int)g.draw( 4 ); while ( n-- ) stmt( b, 2 );
		d.t( "{" ); d.cat( b ); d.t( "}" ); return "{" + join( b.e ) + "}";
	}

	// -------- types
	string targs( int d ) { string s = "<"; int n = 1 + (int)g.draw( 2 ); for ( int i = 0; i < n; ++i ) { if ( i ) s += ", "; switch ( g.draw( d > 0 ? 5 : 3 ) ) { case 0: s += "int"; break; case 1: s += ident(); break; case 2: s += num(); break; case 3: s += ident() + targs( d - 1 ); break; case 4: s += "char const*"; break; } } return s + ">"; }
	Type type( bool want_value = true, bool tag_ok = false, bool ptr_ok = true ) {
		Type t; string base, tag; bool cpre = g.coin( 1, 5 );
		switch ( g.weighted( { 6, 6, 3, 3, tag_ok ? 2 : 0, 1, 1 } ) ) {
		case 0: base = g.pick( { "int", "char", "bool", "float", "double", "void" } ); break;
		case 1: base = ident(); break;
		case 2: base = g.pick( { "unsigned", "unsigned int", "unsigned long long", "unsigned long long int", "long", "long int", "long double", "short", "short int", "signed char", "unsigned char", "long long", "signed", "unsigned short int" } ); break;
		case 3: base = ident() + ( g.coin() ? targs( 2 ) : "" ) + "::" + ident() + "_t" + ( g.coin( 1, 3 ) ? targs( 1 ) : "" ); break;
		case 4: tag = g.pick( { "struct", "class", "enum", "union" } ); base = g.coin( 2, 3 ) ? ident() : qual() + ( g.coin() ? targs( 1 ) : "" ); break;
		case 5: base = "auto"; break;
		case 6: base = ident() + targs( 2 ); break;
		}
		if ( auto m = mac( []( const Mac& m ) { return m.kind == 't' && ! m.body; }, 4 ) ) { base = mcall( m ); tag.clear(); }
		string suf; vector<string> sp;
		if ( cpre ) sp.push_back( "const" );
		else if ( g.coin( 1, 6 ) ) { sp.push_back( "const" ); suf += " const"; }
		if ( ptr_ok ) {
			for ( int np = 0; np < 4 && g.coin( 1, 4 ); ++np ) { suf += "*"; sp.push_back( "*" ); if ( g.coin( 1, 4 ) ) { suf += " const"; sp.push_back( "const" ); } }
			if ( g.coin( 1, 7 ) ) { suf += "&"; sp.push_back( "&" ); } else if ( g.coin( 1, 12 ) ) { suf += "&&"; sp.push_back( "&&" ); }
		}
		if ( base == "void" && want_value && suf.find( '*' ) == string::npos ) { suf += "*"; sp.push_back( "*" ); }
		t.tag = tag.size(); t.d.in( ( cpre ? "const " : "" ) + ( tag.size() ? tag + " " : "" ) + base + suf );
		t.d.out( ( tag.size() ? tag + " " : "" ) + base + ( cpre ? " const" : "" ) + suf );
		string ss; for ( auto& x : sp ) ss += ( ss.size() ? "," : "" ) + x;
		t.f = ( tag.size() ? tag + " " : "" ) + norm( base ) + "<" + ss + ">";
		return t;
	}

	// -------- parameters; gives the facts
	string plist( D& d, bool in_template = false, int max = 4 ) {
		string f; int n = (int)g.draw( max + 1 );
		d.t( "(" );
		for ( int i = 0; i < n; ++i ) {
			if ( i ) d.t( "," );
			if ( i == n - 1 && i > 0 && g.coin( 1, 10 ) ) { d.t( "..." ); f += param( "<>", "...", "" ); break; }
			string nm = uniq(), val, tf, mb, ma;
			if ( auto m = mac( []( const Mac& m ) { return m.kind == 'e' && ! m.ident; }, 6 ) ) { mb = mcall( m ); d.t( mb ); mb = norm( mb ); if ( i > 0 && g.coin( 1, 3 ) ) { f += param( "-", "", "", mb ); continue; } }
			else if ( g.coin( 1, 10 ) ) {       // function pointer
				Type r = type( false, false ); D q; string pf = plist( q, false, 2 ); if ( pf.empty() ) { q = D(); q.t( "( int )" ); pf = param( "int<>", "", "" ); }
				d.cat( r.d ); d.t( "(*" + nm + ")" ); d.cat( q ); tf = "fn<" + r.f + "|( * " + nm + " )|" + pf + ">"; f += param( tf, "", "" ); continue;
			}
			Type t = type( true, true ); d.cat( t.d ); tf = t.f;
			static const vector<string> words = { "int", "char", "bool", "double", "unsigned", "long", "short", "signed" };
			bool unnamed = ( i > 0 || n == 1 || t.d.e.size() > 1 || std::find( words.begin(), words.end(), t.d.e[ 0 ].t ) != words.end() ) && g.coin( 1, 6 );   // a lone name may also be a value
			if ( unnamed ) nm = ""; else { if ( macs.size() ) nm = name_(); d.t( nm ); if ( auto m = mac( []( const Mac& m ) { return m.kind == 'e' && ! m.ident; }, 6 ) ) { ma = mcall( m ); d.t( ma ); ma = norm( ma ); } }
			if ( g.coin( 1, 5 ) ) { val = expr( 2, false ); d.t( "= " + val ); }
			f += param( tf, nm, norm( val ), mb, ma );
		}
		d.t( ")" ); return f;
	}
	string attribute() { return g.pick( { "[[nodiscard]]", "[[deprecated( \"old, very\" )]]", "__attribute__((packed))", "__declspec(dllexport)", "[[maybe_unused]]", "[[gnu::hot]]" } ); }
	string attrs( D& d, int den = 8 ) { if ( ! attrs_on || ! g.coin( 1, den ) ) return ""; if ( macs.size() ) { string f; do { auto m = mac( []( const Mac& m ) { return m.attr && m.kind != 's'; }, 2 ); string a = m ? mcall( m ) : attribute(); if ( m ) d.t( a ); else d.one( a ); f += ( f.size() ? " " : "" ) + norm( a ); } while ( g.coin( 1, 3 ) ); return "A=" + f + " "; }
		string a = attribute(); if ( g.coin( 1, 4 ) ) a += " " + attribute(); d.one( a ); return "A=" + norm( a ) + " "; }
	string cm( D& d ) {      // a comment on the line of the declaration's end
		if ( ! inl_comments || ! g.coin( 1, 6 ) ) return "";
		string c = g.pick( { "// c", "/* blk */", "// it's", "//!< doc ; }", "// tail  spaced" } ); d.raw( c, 'i' ); return " //" + squeeze( c );
	}
	string spec_list( D& d, std::initializer_list<const char*> from, int den ) {
		string f; if ( ! g.coin( 1, den ) ) return f; int n = 1 + (int)g.draw( 2 ); vector<string> seen;
		while ( n-- ) { string s = g.pick( from ); bool dup = false; for ( auto& x : seen ) dup |= x == s; if ( dup ) continue; seen.push_back( s ); d.t( s ); f += ( f.size() ? "," : "" ) + s; }
		return f;
	}
	string add( const string& a, const string& b ) { return a.size() && b.size() ? a + "," + b : a + b; }

	// -------- variables
	D var( bool member, const string& mods = "" ) {
		D d; if ( mods.size() ) d.t( mods ); string a = attrs( d );
		string sp = member ? spec_list( d, { "static", "mutable", "volatile", "inline", "constexpr", "constinit" }, 3 ) : spec_list( d, { "static", "extern", "constexpr", "inline", "internal", "global", "constinit" }, 3 );
		if ( g.coin( 1, 12 ) ) {     // function pointer
			Type r = type( false ); D q; string pf = plist( q, false, 2 ); if ( pf.empty() ) { q = D(); q.t( "( int )" ); pf = param( "int<>", "", "" ); }
			string nm = uniq(); d.cat( r.d ); d.t( "(*" + nm + ")" ); d.cat( q ); string val; if ( g.coin( 1, 3 ) ) { val = expr( 1, true ); d.t( "= " + val ); }
			d.t( ";" ); string c = cm( d ); d.f = fvar( mods.size() ? "export " : "", a, sp, "fn<" + r.f + "|( * " + nm + " )|" + pf + ">", "", "", norm( val ), false, "", c ); return d;
		}
		Type t = type( true, g.coin( 1, 4 ) ); d.cat( t.d ); mid_attr( d, a, mods.size() );
		string nm = name_( true ); if ( ! member && g.coin( 1, 10 ) ) nm = ident() + "::" + uniq();
		string arrs, val, bits; bool paren = false;
		if ( member && g.coin( 1, 8 ) ) { bits = expr( 1, true ); if ( g.coin( 1, 5 ) && ! t.tag ) nm = ""; d.t( nm ); d.t( ": " + bits ); }
		else {
			d.t( nm );
			if ( g.coin( 1, 6 ) ) { int n = 1 + (int)g.draw( 3 ); while ( n-- ) { string x = expr( 1, true ); d.t( "[" + x + "]" ); arrs += "[" + norm( x ) + "]"; } }
			switch ( g.weighted( { 5, 4, 1, member || arrs.size() ? 0 : 1, arrs.size() ? 2 : 0 } ) ) {
			case 1: val = expr( 3, true ); d.t( "= " + val ); break;
			case 2: val = "{ " + expr( 1, true ) + ", " + expr( 1, true ) + " }"; d.in( val ); d.out( "= " + val ); break;
			case 3: val = num() + ", " + expr( 1, true ); paren = true; d.t( "( " + val + " )" ); break;
			case 4: val = "{ " + expr( 1, true ) + ", { " + expr( 1, true ) + " } }"; d.t( "= " + val ); break;
			}
		}
		string next;
		if ( bits.empty() && g.coin( 1, 6 ) ) {
			int n = 1 + (int)g.draw( 3 );
			while ( n-- ) {
				string sp2, nn = uniq(), ar, v; d.t( "," ); int k = (int)g.draw( 7 );
				if ( k == 1 ) { d.t( "*" ); sp2 = "*"; } else if ( k == 2 ) { d.t( "* const" ); sp2 = "*,const"; } else if ( k == 3 ) { d.t( "**" ); sp2 = "*,*"; } else if ( k == 4 ) { d.t( "&" ); sp2 = "&"; } else if ( k == 5 ) { d.t( "&&" ); sp2 = "&&"; } else if ( k == 6 ) { d.t( "* const *" ); sp2 = "*,const,*"; }
				d.t( nn ); if ( g.coin( 1, 5 ) ) { int m = 1 + (int)g.draw( 2 ); while ( m-- ) { string x = expr( 1, true ); d.t( "[" + x + "]" ); ar += "[" + norm( x ) + "]"; } }
				switch ( g.weighted( { 6, 3, 1, 1 } ) ) {
				case 1: v = expr( 1, true ); d.t( "= " + v ); v = norm( v ); break;
				case 2: v = "{ " + expr( 1, true ) + ", " + expr( 1, true ) + " }"; d.in( v ); d.out( "= " + v ); v = norm( v ); break;
				case 3: v = expr( 1, true ); if ( g.coin() ) v += ", " + expr( 1, true ); d.t( "( " + v + " )" ); v = "(" + norm( v ); break;
				}
				next += ",<" + nn + "|" + sp2 + "|" + ar + "|" + v + "|>";
			}
		}
		d.t( ";" ); string c = cm( d );
		d.f = fvar( mods.size() ? "export " : "", a, sp, t.f + arrs, norm( nm ), norm( bits ), norm( val ), paren, next, c );
		return d;
	}
	// -------- functions
	D fn( bool member, const string& mods = "" ) {
		D d; if ( mods.size() ) d.t( mods ); string a = attrs( d );
		string sp = in_tmpl ? spec_list( d, { "static", "inline", "constexpr", "consteval", "forceinline", "neverinline" }, 2 ) : member ? spec_list( d, { "static", "virtual", "inline", "constexpr", "consteval", "forceinline", "neverinline" }, 2 )
		                   : spec_list( d, { "static", "extern", "inline", "constexpr", "consteval", "forceinline", "neverinline", "internal" }, 2 );
		Type r = type( false, true ); d.cat( r.d ); mid_attr( d, a, mods.size() );
		string nm = uniq(); bool qualified = false; const Mac* as_name = nullptr; if ( ! member && g.coin( 1, 6 ) ) { nm = ident() + "::" + nm; qualified = true; } else if ( ! member && g.coin( 1, 12 ) ) { nm += targs( 1 ); } else if ( ( as_name = mac( []( const Mac& m ) { return ! m.fn; }, 5 ) ) ) { nm = as_name->n; ++plain; }
		d.t( nm ); if ( as_name ) d.s.back().adj = true; string pf = plist( d );
		bool pure = false, del = false;
		if ( member || qualified ) { 
			if ( g.coin( 1, 4 ) ) { d.t( "const" ); sp = add( sp, "const" ); }
			if ( ! in_tmpl && member && g.coin( 1, 8 ) ) { d.t( "override" ); sp = add( sp, "override" ); }
			if ( ! in_tmpl && member && g.coin( 1, 8 ) ) { d.t( "final" ); sp = add( sp, "final" ); }
			if ( ! in_tmpl && member && g.coin( 1, 8 ) ) { d.t( "= 0" ); sp = add( sp, "= 0" ); pure = true; }
		}
		if ( ! pure && g.coin( 1, 12 ) ) { d.t( "= delete" ); sp = add( sp, "= delete" ); del = true; }
		if ( ! pure && ! del ) if ( auto m = mac( []( const Mac& m ) { return m.spec && m.kind == 'e'; }, 4 ) ) { string x = mcall( m ); d.t( x ); sp += "!" + norm( x ); }
		string b = "fwd", c;
		if ( ! pure && ! del && g.coin( 1, 2 ) ) b = fbody( d ); else { d.t( ";" ); c = cm( d ); }
		d.f = ffn( mods.size() ? "export " : "", a, sp, r.f, norm( nm ), pf, b, c ); return d;
	}
	// -------- operators
	bool same_spelling = false;   // compound assignments outside of a class: the first parameter has to be spelled as the result is, also when the white space is drawn
	D op( bool member ) {
		D d; string a = attrs( d, 12 ), sp = spec_list( d, { "inline", "constexpr", "static", "forceinline" }, 4 );
		static const char* bin[] = { "+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "&&", "||", "==", "!=", "<", ">", "<=", ">=", "->*", "," };
		static const char* asg[] = { "=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=" };
		static const char* una[] = { "+", "-", "*", "&", "~", "++", "--", "->" };
		Type r = type( false, true ), p = type( true, true ); string o, pf, q; D ps; string n1 = uniq(), n2 = uniq();
		bool outside = ! member && g.coin( 1, 2 ); if ( outside ) { q = ident() + ( g.coin( 1, 4 ) ? targs( 1 ) : "" ) + "::"; if ( g.coin( 1, 4 ) ) q = ident() + "::" + q; }
		bool memb = member || outside;
		switch ( g.draw( memb ? 6 : 3 ) ) {
		case 0: o = bin[ g.draw( 20 ) ]; if ( ! memb ) { Type p2 = type( true ); ps.t( "(" ); ps.cat( p2.d ); ps.t( n2 + " ," ); ps.cat( p.d ); ps.t( n1 + " )" ); pf = param( p2.f, n2, "" ) + param( p.f, n1, "" ); } else { ps.t( "(" ); ps.cat( p.d ); ps.t( n1 + " )" ); pf = param( p.f, n1, "" ); } break;
		case 1: if ( memb ) { o = asg[ g.draw( 11 ) ]; ps.t( "(" ); ps.cat( p.d ); ps.t( n1 + " )" ); pf = param( p.f, n1, "" ); } else { o = asg[ 1 + g.draw( 10 ) ]; if ( same_spelling ) { r = Type(); string n = ident(); bool ref = g.coin(); r.d.t( n ); if ( ref ) r.d.t( "&" ); r.f = n + ( ref ? "<&>" : "<>" ); } ps.t( "(" ); ps.cat( r.d ); ps.t( n2 + " ," ); ps.cat( p.d ); ps.t( n1 + " )" ); pf = param( r.f, n2, "" ) + param( p.f, n1, "" ); } break;
		case 2: o = g.pick( { "new", "delete", "new[]", "delete[]" } ); ps.t( "(" ); ps.cat( p.d ); ps.t( n1 + " )" ); pf = param( p.f, n1, "" ); q = ""; break;
		case 3: o = una[ g.draw( 8 ) ]; ps.t( "( )" ); break;
		case 4: o = "()"; pf = plist( ps ); break;
		case 5: o = g.coin() ? "[]" : "!"; if ( o == "!" ) { r = Type(); r.d.t( "bool" ); r.f = "bool<>"; ps.t( "( )" ); } else { ps.t( "(" ); ps.cat( p.d ); ps.t( n1 + " )" ); pf = param( p.f, n1, "" ); } break;
		}
		d.cat( r.d ); d.t( q + "operator " + o ); d.cat( ps );
		if ( memb && g.coin( 1, 3 ) ) { d.t( "const" ); sp = add( sp, "const" ); }
		string b = "fwd", c; if ( g.coin( 1, 10 ) ) { d.t( "= delete ;" ); sp = add( sp, "= delete" ); c = cm( d ); } else if ( g.coin() ) b = fbody( d ); else { d.t( ";" ); c = cm( d ); }
		d.f = fop( "", a, sp, r.f, norm( q + "operator " + o ) + " O=" + o + ( ps.e.size() == 2 && string( "+-*&" ).find( o ) != string::npos ? "u" : "" ), pf, b, c ); return d;
	}
	D opcast( bool member ) {
		D d; string sp = spec_list( d, { "inline", "constexpr" }, 5 ), q; if ( member && g.coin( 1, 3 ) ) { d.t( "explicit" ); sp = add( sp, "explicit" ); }
		if ( ! member ) q = ident() + ( g.coin( 1, 4 ) ? targs( 1 ) : "" ) + "::";
		Type t = type( true ); d.t( q + "operator" ); d.cat( t.d ); d.t( "( )" ); if ( g.coin() ) { d.t( "const" ); sp = add( sp, "const" ); }
		string b = "fwd", c; if ( g.coin() || ! member ) b = fbody( d ); else { d.t( ";" ); c = cm( d ); }
		d.f = "cast[S=" + sp + " N=" + norm( q ) + " T=" + t.f + " " + b + c + "]"; return d;
	}
	// -------- constructors and destructors: inside: cls is the class, outside: qualified
	D ctor( const string& cls, bool member ) {
		D d; string sp = member ? spec_list( d, { "explicit", "inline", "constexpr", "forceinline" }, 3 ) : spec_list( d, { "inline", "constexpr" }, 4 );
		d.t( member ? cls : cls + "::" + cls.substr( 0, cls.find( '<' ) ) ); D pl; string pf = plist( pl ); d.cat( pl );
		string b = "fwd", c, in;
		if ( g.coin( 1, 6 ) && member ) { string w = g.pick( { "default", "delete" } ); d.t( "= " + w + ";" ); b = "=" + w; c = cm( d ); }
		else if ( ! member || g.coin() ) { if ( g.coin() ) { in = ident() + "( " + expr( 1, true ) + " )"; while ( g.coin( 1, 3 ) ) in += ", " + ident() + "( " + expr( 1, true ) + " )"; d.t( ": " + in ); } b = fbody( d ); }
		else { d.t( ";" ); c = cm( d ); }
		d.f = "ctor[S=" + sp + " P=" + pf + " I=" + norm( in ) + " " + b + c + "]"; return d;
	}
	D dtor( const string& cls, bool member ) {
		D d; string sp; if ( member && g.coin( 1, 2 ) ) { d.t( "virtual" ); sp = "virtual"; }
		d.t( member ? "~" + cls : cls + "::~" + cls.substr( 0, cls.find( '<' ) ) ); d.t( "( )" );
		if ( member && g.coin( 1, 6 ) ) { string w = g.pick( { "override", "final" } ); d.t( w ); sp = add( sp, w ); }
		string b = "fwd", c;
		switch ( member ? g.draw( 4 ) : 1 ) { case 0: d.t( ";" ); c = cm( d ); break; case 1: b = fbody( d ); break; case 2: { string w = g.pick( { "default", "delete" } ); d.t( "= " + w + ";" ); b = "=" + w; c = cm( d ); break; } case 3: d.t( "= 0 ;" ); sp = add( sp, "= 0" ); c = cm( d ); break; }
		d.f = "dtor[S=" + sp + " " + b + c + "]"; return d;
	}
	// -------- enums
	string enumerators( D& d ) {
		D b; int n = (int)g.draw( 5 );
		for ( int i = 0; i < n; ++i ) { b.t( uniq() ); if ( auto m = mac( []( const Mac& m ) { return m.kind == 'e' && ! m.ident; }, 5 ) ) b.t( mcall( m ) ); else if ( g.coin( 1, 3 ) ) b.t( "= " + expr( 2, true ) ); if ( i + 1 < n || g.coin( 1, 4 ) ) { b.t( "," ); } if ( comments && g.coin( 1, 8 ) ) b.raw( g.pick( { "// an, enumerator", "/* , */" } ), 'c' ); if ( directives && g.coin( 1, 8 ) ) b.raw( g.pick( { "#if A > 1", "#ifdef B", "#elif defined( C ) && D", "#else", "#endif", "#undef E_", "#pragma once", "#define F_ 3" } ), 'd' ); }
		d.t( "{" ); d.cat( b ); d.t( "}" ); return "{" + join( b.e ) + "}";
	}
	D enum_( bool named = true, bool end = true, const string& mods = "" ) {
		D d; if ( mods.size() ) d.t( mods ); bool cl = named && g.coin(); d.t( cl ? "enum class" : "enum" ); bool fwd = named && end && g.coin( 1, 5 );
		string a = fwd ? "" : attrs( d ), nm, un; if ( named ) { nm = uniq(); d.t( nm ); }
		if ( named && ( g.coin( 1, 2 ) ) ) { un = g.pick( { "int", "unsigned char", "u8", "unsigned int", "std::uint8_t", "long long" } ); if ( g.coin( 1, 4 ) ) { un = "enum_underlying( " + un + " )"; d.t( un ); for ( auto& x : d.s ) if ( x.t == "enum_underlying" ) x.adj = true; un = "M!" + norm( un ); } else { d.t( ": " + un ); un = norm( un ) + "<>"; } }
		string b = " fwd", c; if ( ! fwd ) b = enumerators( d ); if ( end ) { d.t( ";" ); c = cm( d ); }
		d.f = fenum( cl ? "enumclass" : "enum", mods.size() ? "export " : "", a, nm, un, b, c ); return d;
	}
	// -------- class / struct / union
	D member( const string& cls, int depth, bool in_union ) {
		if ( macs.size() && g.coin( 1, 5 ) ) return g.coin( 1, 3 ) && ! in_union ? mdef() : mstat();
		switch ( g.weighted( { 8, in_union ? 0 : 7, in_union ? 0 : 3, in_union ? 0 : 3, in_union ? 0 : 1, in_union ? 0 : 2, in_union ? 0 : 2, depth > 0 ? 2 : 0, 1, in_union ? 0 : 1, in_union ? 0 : 1, comments ? 1 : 0, directives ? 1 : 0, in_union ? 0 : 1, depth > 0 && ! in_union ? 1 : 0, 1 } ) ) {
		default: return var( true );
		case 15: return inplace( in_union );
		case 1: return fn( true );
		case 2: return cls.empty() ? var( true ) : ctor( cls, true );
		case 3: { string w = g.pick( { "public", "private", "protected" } ); D d; d.t( w + " :" ); d.f = w + ":"; return d; }
		case 4: return cls.empty() ? var( true ) : dtor( cls, true );
		case 5: return op( true );
		case 6: return opcast( true );
		case 7: return g.coin( 1, 4 ) ? union_( depth - 1 ) : cls_( g.coin() ? "struct" : "class", depth - 1 );
		case 8: return enum_();
		case 9: return using_( false );
		case 10: return typedef_();
		case 11: return comment();
		case 12: return pp();
		case 13: return friend_();
		case 14: return tmpl( true, cls );
		}
	}
	struct Keep { bool& r; bool v; ~Keep() { r = v; } };
	D members( const string& cls, int depth, bool in_union, string& f ) {
		Keep keep{ in_member, in_member }, keep2{ in_tmpl, in_tmpl }, keep3{ of_union, of_union }; in_member = true; in_tmpl = false; of_union = in_union;
		D d; int n = (int)g.draw( depth > 1 ? 7 : 4 ); d.t( "{" ); f = "{"; while ( n-- ) { D m = member( cls, depth, in_union ); d.cat( m ); f += m.f + " "; } d.t( "}" ); f += "}"; return d;
	}
	D cls_( const string& kw, int depth, bool named = true, bool end = true, const string& mods = "", const string& spec = "" ) {
		D d; if ( mods.size() ) d.t( mods ); d.t( kw ); string nm = named ? uniq() : ""; string m = mods.size() ? "export " : "";
		if ( named && end && g.coin( 1, 5 ) && spec.empty() ) { d.t( nm + " ;" ); string c = cm( d ); d.f = fcls( kw, m, "", nm, "", "", " fwd", c ); return d; }
		string a = attrs( d ), fin, bs; string full = nm + spec; d.t( full );
		if ( named && g.coin( 1, 8 ) ) { d.t( "final" ); fin = " final"; }
		if ( named && g.coin( 1, 3 ) ) {
			string ac = kw == "class" ? g.pick( { "public", "private", "protected" } ) : g.pick( { "", "public", "private", "protected" } ); string b0 = qual() + ( g.coin( 1, 4 ) ? targs( 1 ) : "" );
			d.in( ": " + ac + " " + b0 ); d.out( ": " + ac + " " + b0 ); bs = " :" + ( ac.empty() ? string( "default" ) : ac ) + " " + norm( b0 ) + "<>";
			while ( g.coin( 1, 3 ) ) { string b1 = qual() + ( g.coin( 1, 4 ) ? targs( 1 ) : "" ); d.in( kw == "class" ? ", public " + b1 : ", " + b1 ); d.out( kw == "class" ? ", public " + b1 : ", " + b1 ); bs += "," + norm( b1 ) + "<>"; }
		}
		string bf; d.cat( members( nm, depth, false, bf ) );
		string c; if ( end ) { d.t( ";" ); c = cm( d ); }
		d.f = fcls( kw, m, a, norm( full ), fin, bs, bf, c ); return d;
	}
	D union_( int depth, bool named = true, bool end = true, const string& mods = "" ) {
		D d; if ( mods.size() ) d.t( mods ); d.t( "union" ); string nm = named ? uniq() : "", m = mods.size() ? "export " : "";
		if ( named && end && g.coin( 1, 6 ) ) { d.t( nm + " ;" ); d.f = fcls( "union", m, "", nm, "", "", " fwd", "" ); return d; }
		string a = named ? attrs( d ) : ""; d.t( nm ); string bf; d.cat( members( nm, depth, true, bf ) ); if ( end ) d.t( ";" );
		d.f = fcls( "union", m, a, nm, "", "", bf, "" ); return d;
	}
	// a variable whose type is defined in-place
	D inplace( bool in_union ) {
		D d, b; bool nm = g.coin(); int k = (int)g.draw( 4 );
		b = k == 0 ? enum_( nm, false ) : k == 1 ? union_( 1, nm, false ) : cls_( k == 2 || ! nm ? "struct" : "class", 1, nm, false );
		d.cat( b ); string n = uniq(); d.t( n + " ;" ); string c = cm( d ); d.f = fvar( "", "", "", "{" + b.f + "}", n, "", "", false, "", c ); return d;
	}
	// -------- the rest
	D using_( bool global, const string& mods = "" ) {
		D d; if ( mods.size() ) d.t( mods ); string m = mods.size() ? "export " : ""; d.t( "using" );
		if ( global && mods.empty() && g.coin( 1, 3 ) ) { string q = qual(); d.t( "namespace " + q + ";" ); string c = cm( d ); d.f = "usingns[" + norm( q ) + c + "]"; return d; }
		if ( mods.empty() && g.coin( 1, 4 ) ) { string q = ident() + "::" + ident(); d.t( q + ";" ); string c = cm( d ); d.f = "using[" + norm( q ) + c + "]"; return d; }
		string nm = uniq(), a; d.t( nm ); Type t = type( true ); d.t( "=" ); d.cat( t.d ); string ar; for ( int n = 0; n < 3 && g.coin( 1, n ? 3 : 6 ); ++n ) { string x = expr( 1, true ); d.t( "[" + x + "]" ); ar += "[" + norm( x ) + "]"; }
		d.t( ";" ); string c = cm( d ); d.f = "using[" + m + nm + "=" + t.f + ar + c + "]"; return d;
	}
	D typedef_( const string& mods = "" ) {
		D d; if ( mods.size() ) d.t( mods ); string m = mods.size() ? "export " : ""; d.t( "typedef" ); string nm = uniq(), tf, c;
		if ( auto m = mac( []( const Mac& m ) { return ( m.kind == 's' && ! m.def && ! m.body ) || ( m.kind == 't' && ! m.ident ); }, 4 ) ) {       // the macro is all there is, or a statement macro the type
			string x = mcall( m ); d.t( x ); if ( m->kind == 's' && g.coin() ) { d.t( nm ); tf = "raw[" + norm( x ) + "]"; } else { nm = norm( x ); tf = "<>"; }
			d.t( ";" ); c = cm( d ); d.f = "typedef[" + nm + "=" + tf + c + "]"; return d;
		}
		switch ( g.weighted( { 5, 2, 2, 1, 1 } ) ) {
		default: { Type t = type( true ); d.cat( t.d ); d.t( nm ); string ar; for ( int n = 0; n < 3 && g.coin( 1, n ? 3 : 6 ); ++n ) { string x = expr( 1, true ); d.t( "[" + x + "]" ); ar += "[" + norm( x ) + "]"; } tf = t.f + ar; break; }
		case 1: { Type r = type( false ); D q; string pf = plist( q, false, 3 ); if ( pf.empty() ) { q = D(); q.t( "( int )" ); pf = param( "int<>", "", "" ); } d.cat( r.d ); d.t( "(*" + nm + ")" ); d.cat( q ); tf = "fn<" + r.f + "|( * " + nm + " )|" + pf + ">"; nm = "( * " + nm + " )"; break; }
		case 2: { bool st = g.coin( 3, 4 ); D b = cls_( st ? "struct" : "class", 1, ! st || g.coin(), false ); d.cat( b ); d.t( nm ); tf = b.f; break; }
		case 3: { D b = enum_( g.coin(), false ); d.cat( b ); d.t( nm ); tf = b.f; break; }
		case 4: { D b = union_( 1, true, false ); d.cat( b ); d.t( nm ); tf = b.f; break; }
		}
		d.t( ";" ); c = cm( d ); d.f = "typedef[" + m + nm + "=" + tf + c + "]"; return d;
	}
	D friend_() {
		D d; d.t( "friend" ); string c, f;
		switch ( g.draw( 3 ) ) {
		case 0: { string kw = g.pick( { "class", "struct" } ), nm = uniq(); d.t( kw + " " + nm + ";" ); f = "type " + kw + " " + nm + "<>"; break; }
		case 1: { Type r = type( false ); string nm = uniq(); d.cat( r.d ); d.t( nm ); string pf = plist( d ); d.t( ";" ); c = cm( d ); f = ffn( "", "", "", r.f, nm, pf, "fwd", c ); d.f = "friend[" + f + "]"; return d; }
		case 2: { Type r = type( false ); string nm = uniq(); d.cat( r.d ); d.t( nm ); string pf = plist( d ); string b = fbody( d ); d.f = "friend[" + ffn( "", "", "", r.f, nm, pf, b, "" ) + "]"; return d; }
		}
		c = cm( d ); d.f = "friend[" + f + c + "]"; return d;
	}
	string tparams( D& d ) {
		string f; d.t( "<" ); int n = 1 + (int)g.draw( 3 );
		for ( int i = 0; i < n; ++i ) {
			if ( i ) d.t( "," ); string nm = uniq();
			switch ( g.draw( 5 ) ) {
			default: { string kw = g.pick( { "typename", "class" } ); d.t( kw + " " + nm ); string v; if ( i == n - 1 && g.coin( 1, 4 ) ) { v = ident(); d.t( "= " + v ); } f += param( kw + "<>", nm, v ); break; }
			case 1: { string t = g.pick( { "int", "unsigned int", "bool", "u8" } ), v; d.t( t + " " + nm ); if ( i == n - 1 && g.coin( 1, 3 ) ) { v = num(); d.t( "= " + v ); } f += param( norm( t ) + "<>", nm, v ); break; }
			case 2: if ( i == n - 1 ) { d.t( "typename ... " + nm ); f += param( "typename<>...", nm, "" ); } else { d.t( "typename " + nm ); f += param( "typename<>", nm, "" ); } break;
			}
		}
		d.t( ">" ); return f;
	}
	D tmpl( bool member, const string& cls = "", const string& mods = "" ) {
		D d; if ( mods.size() ) d.t( mods ); d.t( "template" ); string pf; bool special = ! member && g.coin( 1, 6 );
		if ( special ) { d.t( "< >" ); } else pf = tparams( d );
		D b; int k = (int)g.draw( 10 ); Keep keep{ in_tmpl, in_tmpl }; in_tmpl = true;
		switch ( k ) {
		default: case 0: b = fn( member ); break;
		case 1: b = cls_( "struct", 1, true, true, "", special ? targs( 1 ) : "" ); break;
		case 2: b = cls_( "class", 1, true, true, "", special ? targs( 1 ) : "" ); break;
		case 3: if ( special ) b = fn( member ); else { b.t( "using" ); string nm = uniq(); b.t( nm + " =" ); Type t = type( true ); b.cat( t.d ); b.t( ";" ); string c = cm( b ); b.f = "using[" + nm + "=" + t.f + c + "]"; } break;
		case 4: b = member ? fn( true ) : var( false ); break;
		case 5: b = special ? fn( member ) : union_( 1 ); break;
		case 6: if ( member ) b = cls.empty() ? fn( true ) : ctor( cls, true ); else b = op( false ); break;
		case 7: if ( member ) b = fn( true ); else { string c = uniq(); b = ctor( c + targs( 0 ), false ); } break;
		case 8: if ( member ) b = fn( true ); else { string c = uniq(); b = dtor( c + targs( 0 ), false ); } break;
		}
		d.cat( b ); d.f = "tmpl[" + string( mods.size() ? "export " : "" ) + pf + b.f + "]"; return d;
	}
	D comment() {
		string c = g.pick( { "// a comment", "/* a block */", "/* two\n   lines */", "// with ; and } and \"", "//", "/**/", "/** doc\n * int x;\n */", "/// doc", "// #define X", "/* // */" } ); D d; d.raw( c, 'c' ); d.f = "cmt[" + squeeze( c ) + "]"; return d;
	}
	D pp( int only = -1 ) {
		D d; auto dir = [&]( const string& t, const string& f ) { d.raw( t, 'd' ); d.f += ( d.f.size() ? " " : "" ) + f; };
		switch ( only < 0 ? (int)g.draw( 7 ) : only ) {
		case 6: { string x = g.pick( { "#undef ", "#error it is \"bad\" ", "#warning one, two ", "#line 3 \"f.h\" // " } ) + uniq(); if ( x[ 1 ] == 'l' ) x = x.substr( 0, x.find( " //" ) ); dir( x, "raw[" + norm( x ) + "]" ); break; }
		case 0: { string i = g.pick( { "<a.h>", "\"b.h\"", "<sys/x.h>", "\"dir/c d.hpp\"" } ); dir( "#include " + i, "include[" + norm( i ) + "]" ); break; }
		case 1: { string i = g.pick( { "once", "pack( push, 1 )", "region A B", "GCC diagnostic ignored \"-Wall\"" } ); dir( "#pragma " + i, "pragma[" + norm( i ) + "]" ); break; }
		case 2: { string n = uniq(); dir( "#ifdef " + n, "ifdef[" + n + "]" ); cond( d ); dir( "#endif", "endif" ); break; }
		case 3: { string n = uniq(); dir( "#ifndef " + n, "ifndef[" + n + "]" ); cond( d ); dir( "#endif", "endif" ); break; }
		case 4: { string n = g.coin() ? "defined( " + uniq() + " ) && " + expr( 1, true ) : expr( 2, true ); dir( "#if " + n, "if[" + norm( n ) + "]" ); cond( d ); while ( g.coin( 1, 4 ) ) { string m = expr( 1, true ); dir( "#elif " + m, "elif[" + norm( m ) + "]" ); cond( d ); } if ( g.coin( 1, 3 ) ) { dir( "#else", "else" ); cond( d ); } dir( "#endif", "endif" ); break; }
		case 5: { auto cont = [&]() -> string { return g.coin( 1, 10 ) ? g.pick( { " \\\n\t", "\\\n", " \\\r\n" } ) : ""; };
			string n = "M_" + uniq(), ps, pf; bool fn = g.coin( 1, 3 ); if ( auto m = mac( []( const Mac& ) { return true; }, 2 ) ) { n = m->n; fn = m->fn; ++plain; } else if ( macs.size() ) macs.push_back( Mac{ n, 'e', fn } ); if ( fn ) { int k = (int)g.weighted( { 1, 4, 4, 4 } ); ps = "("; pf = "("; for ( int i = 0; i < k; ++i ) { string x = i == k - 1 && g.coin( 1, 4 ) ? "..." : uniq(); ps += ( i ? "," : "" ) + cont() + " " + x; pf += x + ","; } ps += cont() + " )"; pf += ")"; }
			string b = g.coin( 1, 6 ) && ps.empty() ? "" : expr( 2, true ); if ( b.size() && g.coin( 1, 6 ) ) b += g.pick( { " + '\"'", " + \"it's \\\"\"[ 1 ]", " + '\\''" } ); if ( b.size() && g.coin( 1, 4 ) ) b += g.pick( { " \\\n\t+ ", " \\\r\n+ " } ) + num();
			dir( "#define " + n + ps + ( b.size() ? " " + b : "" ), "define[" + n + pf + " " + defbody( b ) + "]" ); break; }
		}
		return d;
	}
	string defbody( const string& b ) { return norm( b ); }
	void cond( D& d ) { if ( g.coin() ) { D v = var( in_member ); d.cat( v ); d.f += " " + v.f; } }
	bool in_member = false, in_tmpl = false, of_union = false, mid_attrs = true;

	D decl( int depth ); D ns_( int depth, const string& mods = "" ); D extern_(); D exports_();
	D top() { D d = decl( 3 ); return d; }
	// a whole file
	D file( int max = 6 ) { D d; d.f = "{"; int n = 1 + (int)g.draw( max ); while ( n-- ) { D x = top(); d.cat( x ); d.f += x.f + " "; } d.f += "}"; return d; }
};
inline D SG::decl( int depth ) {
	if ( macs.size() && g.coin( 1, 6 ) ) return g.coin( 1, 3 ) ? mdef() : mstat();
	switch ( g.weighted( { 6, 6, 5, 2, 3, 3, 3, 3, 3, 2, 2, 2, depth > 0 ? 2 : 0, depth > 0 ? 1 : 0, depth > 0 ? 1 : 0, comments ? 2 : 0, directives ? 2 : 0, 1, 1, 1 } ) ) {
	default: case 0: return var( false );
	case 19: return inplace( false );
	case 1: return fn( false );
	case 2: return cls_( g.coin() ? "struct" : "class", 2 );
	case 3: return union_( 1 );
	case 4: return enum_();
	case 5: return op( false );
	case 6: return typedef_();
	case 7: return using_( true );
	case 8: return tmpl( false );
	case 9: return ctor( uniq(), false );
	case 10: return dtor( uniq(), false );
	case 11: return opcast( false );
	case 12: return ns_( depth );
	case 13: return extern_();
	case 14: return exports_();
	case 15: return comment();
	case 16: return pp();
	case 17: switch ( g.draw( depth > 0 ? 8 : 7 ) ) { default: return var( false, "export" ); case 7: return ns_( depth, "export" ); case 1: return fn( false, "export" ); case 2: return cls_( g.coin() ? "struct" : "class", 1, true, true, "export" ); case 3: return enum_( true, true, "export" ); case 4: return union_( 1, true, true, "export" ); case 5: return using_( true, "export" ); case 6: return tmpl( false, "", "export" ); }
	case 18: { D d; string e = expr( 2, true ); d.t( "static_assert( " + e + ", " + strlit() + " );" ); d.f = "raw[" + join( d.e ) + "]"; return d; }
	}
}
inline D SG::ns_( int depth, const string& mods ) { D d; if ( mods.size() ) d.t( mods ); string q = qual(); d.t( "namespace " + q + " {" ); string f; int n = (int)g.draw( 4 ); while ( n-- ) { D x = decl( depth - 1 ); d.cat( x ); f += x.f + " "; } d.t( "}" ); d.f = "ns[" + string( mods.size() ? "export " : "" ) + norm( q ) + "{" + f + "}]"; return d; }
inline D SG::extern_() { D d; d.t( "extern \"C\" {" ); string f; int n = (int)g.draw( 4 ); while ( n-- ) { D x = macs.size() && g.coin( 1, 4 ) ? mstat() : g.coin() ? fn( false ) : var( false ); d.cat( x ); f += x.f + " "; } d.t( "}" ); d.f = "extern[C{" + f + "}]"; return d; }
inline D SG::exports_() { D d; d.in( "export {" ); int n = 1 + (int)g.draw( 3 ); for ( int i = 0; i < n; ++i ) { D x = g.coin() ? fn( false, "export" ) : var( false, "export" ); x.s.erase( x.s.begin() ); d.cat( x ); d.f += ( i ? " " : "" ) + x.f; } d.in( "}" ); return d; }
}

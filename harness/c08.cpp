// C08 - bodies, parameter lists, specifiers and interfaces built up by appending; copies; comparison.
#include "mac.hpp"
#include "zoo.hpp"
static std::string str( Code c ) { return gx::X( code_to_strbuilder( c ) ); }
static std::string own( Code c ) { return kind( c ) + ":" + gx::X( c->Name ) + ":" + ( c->Type == CT_Untyped || c->Type == CT_Comment || c->Type == CT_Execution ? gx::X( c->Content ) : "" ) + ( c->Type != CT_Untyped && c->ModuleFlags & ModuleFlag_Export ? ":export" : "" ); }
// ---- bodies
static const int BodyTypes[] = { CT_Global_Body, CT_Class_Body, CT_Struct_Body, CT_Namespace_Body, CT_Function_Body, CT_Enum_Body, CT_Union_Body, CT_Extern_Linkage_Body, CT_Export_Body };
struct MBody { CodeBody b; std::vector<std::string> want; std::vector<Code> entries; int type; };
static Code loose( pbt::Gen& g, int id ) {
	std::string n = "n" + std::to_string( id );
	switch ( g.draw( 8 ) ) {
	case 0: return untyped_str( gx::S( n + ";\n" ) ); case 1: return (Code)def_variable( t_int, gx::S( n ) ); case 2: return (Code)def_comment( gx::S( n ) );
	case 3: return (Code)def_function( gx::S( n ) ); case 4: { CodeBody b = def_body( CT_Struct_Body ); body_append( b, def_variable( t_int, txt( "m" ) ) ); Opts_def_struct o = {}; o.body = b; return (Code)def_struct( gx::S( n ), o ); }
	case 5: return (Code)def_execution( gx::S( n + "();\n" ) ); case 6: return (Code)def_using_namespace( gx::S( n ) ); default: return (Code)def_pragma( gx::S( n ) );
	}
}
static Code constant( pbt::Gen& g ) { switch ( g.draw( 5 ) ) { case 0: return fmt_newline; case 1: return access_public; case 2: return access_private; case 3: return (Code)preprocess_endif; default: return (Code)preprocess_else; } }
static void verify( MBody& m, const std::string& log ) {
	size_t i = 0; Code prev = {}; std::string text;
	for ( Code e = begin_CodeBody( m.b ); e != end_CodeBody( m.b ); e = next_CodeBody( m.b, e ), ++i ) {
		PBT_CHECK( i < m.want.size(), "more entries than were appended (%s)\n%s", own( e ).c_str(), log.c_str() );
		PBT_CHECK( own( e ) == m.want[ i ], "entry %zu is %s, not %s\n%s", i, own( e ).c_str(), m.want[ i ].c_str(), log.c_str() );
		PBT_CHECK( e->Parent.ast == (AST*)m.b.ast, "entry %zu has another parent\n%s", i, log.c_str() );
		PBT_CHECK( e->Prev.ast == prev.ast, "entry %zu has another predecessor\n%s", i, log.c_str() );
		if ( m.entries[ i ] ) PBT_CHECK( m.entries[ i ].ast == e.ast, "entry %zu is a copy of what was appended\n%s", i, log.c_str() ); else m.entries[ i ] = e;
		prev = e; text += str( e );
	}
	PBT_CHECK( i == m.want.size() && (size_t)m.b->NumEntries == i, "%zu entries, %d counted, %zu appended\n%s", i, m.b->NumEntries, m.want.size(), log.c_str() );
	PBT_CHECK( m.b->Back.ast == prev.ast && ( ! prev || ! prev->Next ), "the last entry is not the last\n%s", log.c_str() );
	PBT_CHECK( code_has_entries( (Code)m.b ) == ( i > 0 ), "has_entries\n%s", log.c_str() );
	std::string out = str( (Code)m.b ), want = m.type == CT_Export_Body ? "export\n{\n" + text + "}\n" : text;
	PBT_CHECK( out == want, "the body serializes otherwise than its entries\n%s", log.c_str() );
}
static void bodies( pbt::Gen& g ) {
	fresh(); std::vector<MBody> bs; std::string log; int n = 1 + (int)g.draw( 3 ), id = 0;
	for ( int i = 0; i < n; ++i ) { MBody m; m.type = BodyTypes[ g.draw( 9 ) ]; m.b = def_body( (CodeType)m.type ); log += pbt::fmt( "b%d = %s\n", i, kind( (Code)m.b ).c_str() ); bs.push_back( m ); }
	long before = gx::failures; int appended = 0;
	g.many( 1, 30, [&]( int ) {
		size_t k = g.draw( bs.size() ); MBody& m = bs[ k ]; 
		switch ( g.weighted( { 8, 3, 3, 2, 1, 2 } ) ) {
		case 0: { Code c = loose( g, id++ ); log += pbt::fmt( "append to b%zu %s\n", k, own( c ).c_str() ); pbt::describe( g, log ); m.want.push_back( own( c ) ); body_append( m.b, c ); m.entries.push_back( c ); break; }
		case 1: { size_t j = g.draw( bs.size() ); MBody& o = bs[ j ]; if ( o.entries.empty() ) return; size_t e = g.draw( o.entries.size() ); Code c = o.entries[ e ]; log += pbt::fmt( "append to b%zu entry %zu of b%zu\n", k, e, j ); pbt::describe( g, log ); m.want.push_back( own( c ) ); body_append( m.b, c ); m.entries.push_back( Code{} ); break; }
		case 2: { Code c = constant( g ); log += pbt::fmt( "append to b%zu the constant %s\n", k, kind( c ).c_str() ); pbt::describe( g, log ); m.want.push_back( own( c ) ); body_append( m.b, c ); m.entries.push_back( Code{} ); break; }
		case 3: {
			size_t j = g.draw( bs.size() ); if ( j == k ) return; MBody& o = bs[ j ]; log += pbt::fmt( "append to b%zu the body b%zu\n", k, j ); pbt::describe( g, log ); if ( m.want.size() + o.want.size() > 60 ) return; if ( g.coin() ) body_append( m.b, (Code)o.b ); else body_append_body( m.b, o.b );
			for ( auto& w : o.want ) { std::string x = w; if ( o.type == CT_Export_Body && m.type != CT_Export_Body ) { if ( x.size() < 7 || x.compare( x.size() - 7, 7, ":export" ) ) x += ":export"; if ( x.compare( 0, 8, "Untyped:" ) == 0 ) x = w; } m.want.push_back( x ); m.entries.push_back( Code{} ); } break; }
		case 4: { if ( m.entries.empty() ) return; size_t e = g.draw( m.entries.size() ); Code* p = code_entry( (Code)m.b, (u32)e ); log += pbt::fmt( "entry %zu of b%zu\n", e, k ); PBT_CHECK( p && p->ast == m.entries[ e ].ast, "code_entry gives another entry\n%s", log.c_str() ); break; }
		case 5: {
			if ( m.entries.empty() ) return; size_t e = g.draw( m.entries.size() ); Code c = m.entries[ e ], d = code_duplicate( c ); log += pbt::fmt( "append to b%zu a duplicate of entry %zu\n", k, e ); pbt::describe( g, log );
			PBT_CHECK( d && d.ast != c.ast && ! d->Parent, "the duplicate is the original, or has a parent\n%s", log.c_str() ); if ( c->Type != CT_Constructor && c->Type != CT_Destructor ) PBT_CHECK( str( d ) == str( c ), "the duplicate serializes otherwise\n%s", log.c_str() );
			d->Prev = NullCode; d->Next = NullCode; m.want.push_back( own( c ) ); body_append( m.b, d ); m.entries.push_back( d ); break; }
		}
		++appended; for ( auto& b : bs ) verify( b, log );
	}, 9 );
	g.nontrivial = appended > 4; pbt::describe( g, log ); PBT_CHECK( gx::failures == before, "reported as a failure\n%s", log.c_str() );
}
// ---- parameters
static void params( pbt::Gen& g ) {
	fresh(); bool def = g.coin( 1, 3 ); std::string log = def ? "define parameters\n" : "parameters\n"; struct L { Code head; std::vector<std::string> want; }; std::vector<L> ls; int id = 0;
	auto one = [&]() { std::string n = "p" + std::to_string( id++ ); Code c; if ( def ) { c = make_code(); c->Type = CT_Parameters_Define; c->Name = cache_str( gx::S( n ) ); ((CodeDefineParams)c)->NumEntries = 1; } else { Opts_def_param o = {}; if ( g.coin( 1, 3 ) ) o.value = untyped_str( txt( "1" ) ); c = (Code)def_param( t_int, gx::S( n ), o ); } return c; };
	auto sub = [&]( Code c ) { return str( c ); };
	int lists = 1 + (int)g.draw( 2 ); for ( int i = 0; i < lists; ++i ) { Code c = one(); ls.push_back( { c, { gx::X( c->Name ) } } ); }
	long before = gx::failures; int steps = 0; (void)sub;
	g.many( 1, 24, [&]( int ) {
		size_t k = g.draw( ls.size() ); L& l = ls[ k ];
		if ( g.coin( 1, 4 ) ) {   // a parameter that is already in a list
			size_t j = g.draw( ls.size() ); if ( ls[ j ].want.size() < 2 ) return; size_t e = 1 + g.draw( ls[ j ].want.size() - 1 ); Code c = (Code)params_get( (CodeParams)ls[ j ].head, (s32)e ); log += pbt::fmt( "append to list %zu entry %zu of list %zu\n", k, e, j ); pbt::describe( g, log );
			std::string w = ls[ j ].want[ e ]; if ( def ) define_params_append( (CodeDefineParams)l.head, (CodeDefineParams)c ); else params_append( (CodeParams)l.head, (CodeParams)c ); l.want.push_back( w );
		} else { Code c = one(); log += pbt::fmt( "append to list %zu %s\n", k, gx::X( c->Name ).c_str() ); pbt::describe( g, log ); l.want.push_back( gx::X( c->Name ) ); if ( def ) define_params_append( (CodeDefineParams)l.head, (CodeDefineParams)c ); else params_append( (CodeParams)l.head, (CodeParams)c ); }
		++steps;
		for ( auto& x : ls ) {
			CodeParams p = (CodeParams)x.head; PBT_CHECK( (size_t)p->NumEntries == x.want.size(), "counts %d of %zu\n%s", p->NumEntries, x.want.size(), log.c_str() ); PBT_CHECK( params_has_entries( p ), "has_entries\n%s", log.c_str() );
			size_t i = 0; for ( CodeParams q = begin_CodeParams( p ); q != end_CodeParams( p ); q = next_CodeParams( p, q ), ++i ) { PBT_CHECK( i < x.want.size() && gx::X( q->Name ) == x.want[ i ], "entry %zu is %s\n%s", i, gx::X( q->Name ).c_str(), log.c_str() ); PBT_CHECK( params_get( p, (s32)i ).ast == q.ast, "params_get( %zu )\n%s", i, log.c_str() ); }
			PBT_CHECK( i == x.want.size() && ! params_get( p, (s32)i ), "%zu entries\n%s", i, log.c_str() );
			std::string text = str( x.head ), in; for ( char c : text ) if ( ! isspace( (unsigned char)c ) ) in += c; std::string want; for ( size_t j = 0; j < x.want.size(); ++j ) { CodeParams q = params_get( p, (s32)j ); want += ( j ? "," : "" ) + std::string( def ? "" : "int" ) + x.want[ j ] + ( ! def && q->Value ? "=1" : "" ); }
			PBT_CHECK( in == want, "the list serializes as %s, not %s\n%s", in.c_str(), want.c_str(), log.c_str() );
		}
	}, 8 );
	g.nontrivial = steps > 2; PBT_CHECK( gx::failures == before, "reported as a failure\n%s", log.c_str() );
}
// ---- specifiers
static void specifiers( pbt::Gen& g ) {
	fresh(); std::vector<Specifier> m; Specifier s0 = (Specifier)( 1 + g.draw( Spec_NumSpecifiers - 1 ) ); CodeSpecifiers s = def_specifier( s0 ); m.push_back( s0 ); std::string log = gx::X( spec_to_str( s0 ) ) + "\n"; int few = g.coin() ? 3 : (int)Spec_NumSpecifiers - 1, removed = 0;
	g.many( 1, 40, [&]( int ) {
		Specifier v = (Specifier)( 1 + g.draw( few ) ); std::string n = gx::X( spec_to_str( v ) ); long before = gx::failures;
		auto at = std::find( m.begin(), m.end(), v ); int idx = at == m.end() ? -1 : (int)( at - m.begin() );
		switch ( g.weighted( { 6, 3, 1, 1 } ) ) {
		case 0: { log += "append " + n + "\n"; pbt::describe( g, log ); bool ok = specifiers_append( s, v ), can = (int)m.size() < AST_ArrSpecs_Cap; PBT_CHECK( ok == can, "append gave %d for %zu entries\n%s", ok, m.size(), log.c_str() ); if ( can ) m.push_back( v ); break; }
		case 1: { log += "remove " + n + "\n"; pbt::describe( g, log ); int r = specifiers_remove( s, v ); PBT_CHECK( r == idx, "remove gave %d, not %d\n%s", r, idx, log.c_str() ); PBT_CHECK( gx::failures == before, "reported\n%s", log.c_str() ); if ( idx >= 0 ) m.erase( at ), ++removed; break; }
		case 2: PBT_CHECK( specifiers_has( s, v ) == ( idx >= 0 ), "has %s\n%s", n.c_str(), log.c_str() ); break;
		case 3: PBT_CHECK( specifiers_index_of( s, v ) == idx, "index_of %s\n%s", n.c_str(), log.c_str() ); break;
		}
		PBT_CHECK( (size_t)s->NumEntries == m.size(), "counts %d of %zu\n%s", s->NumEntries, m.size(), log.c_str() ); size_t i = 0; for ( Specifier* p = begin_CodeSpecifiers( s ); p != end_CodeSpecifiers( s ); p = next_CodeSpecifiers( s, p ), ++i ) PBT_CHECK( i < m.size() && * p == m[ i ], "entry %zu\n%s", i, log.c_str() );
		PBT_CHECK( i == m.size(), "%zu entries\n%s", i, log.c_str() ); PBT_CHECK( ! specifiers_has( s, Spec_Invalid ), "has the invalid specifier\n%s", log.c_str() );
	}, 12 );
	g.nontrivial = removed > 0 && m.size() > 1;
	std::string out = src::join( src::lex( str( (Code)s ) ) ); std::vector<std::string> want; for ( Specifier v : m ) { std::string t = gx::X( spec_to_str( v ) ); want.push_back( t ); }
	for ( auto& w : want ) PBT_CHECK( str( (Code)s ).find( w ) != std::string::npos, "%s is missing in %s\n%s", w.c_str(), out.c_str(), log.c_str() );
}
// ---- interfaces
static void interfaces( pbt::Gen& g ) {
	fresh(); bool cl = g.coin(), parent = g.coin(), use_opts = g.coin(); std::string log = pbt::fmt( "%s%s%s:", use_opts ? "given " : "", cl ? "class" : "struct", parent ? " : P" : "" ); Opts_def_struct o = {}; if ( parent ) { o.parent = def_type( txt( "P" ) ); o.parent_access = (AccessSpec)( g.draw( 4 ) ); } int n = (int)g.draw( 6 );
	if ( g.coin() ) o.body = cl ? def_class_body( 1, untyped_str( txt( "int a;\n" ) ) ) : def_struct_body( 1, untyped_str( txt( "int a;\n" ) ) ); std::vector<CodeTypename> v; std::vector<std::string> want; if ( parent ) want.push_back( "P" );
	for ( int i = 0; i < n; ++i ) { std::string s = "I" + std::to_string( i ); v.push_back( def_type( gx::S( s ) ) ); want.push_back( s ); log += " " + s; } pbt::describe( g, log ); long before = gx::failures;
	int first = use_opts ? (int)g.draw( n + 1 ) : 0; log += pbt::fmt( " (%d at once, access %d%s)", first, o.parent_access, o.body ? ", body" : "" ); pbt::describe( g, log ); o.interfaces = v.data(); o.num_interfaces = first;
	Code c = cl ? (Code)def_class( txt( "C" ), o ) : (Code)def_struct( txt( "C" ), o ); for ( int i = first; i < n; ++i ) { if ( cl ) class_add_interface( (CodeClass)c, v[ i ] ); else struct_add_interface( (CodeStruct)c, v[ i ] ); }
	size_t i = 0; for ( Code p = (Code)((CodeClass)c)->ParentType; p; p = p->Next, ++i ) PBT_CHECK( i < want.size() && gx::X( p->Name ) == want[ i ], "base %zu is %s\n%s", i, gx::X( p->Name ).c_str(), log.c_str() ); PBT_CHECK( i == want.size(), "%zu bases\n%s", i, log.c_str() );
	if ( parent && first == n ) PBT_CHECK( ((CodeClass)c)->ParentAccess == o.parent_access, "the access to the parent changed\n%s", log.c_str() );
	std::string out = str( c ); if ( ! o.body ) want.clear(); for ( auto& w : want ) PBT_CHECK( out.find( w ) != std::string::npos, "%s is missing in\n%s", w.c_str(), out.c_str() );
	size_t at = 0; for ( auto& w : want ) { at = out.find( w, at ); PBT_CHECK( at != std::string::npos, "bases out of order in\n%s", out.c_str() ); }
	g.nontrivial = n > 1; PBT_CHECK( gx::failures == before, "reported as a failure\n%s", log.c_str() );
}
// ---- comparison
struct Site { std::string what; std::function<void()> change; };
struct Sites {
	std::vector<Site> v;
	void add( const std::string& what, std::function<void()> f ) { v.push_back( { what, f } ); }
	void part( Code& a, Code& b, const std::string& at, const char* what ) { if ( ! a || ! b ) return; Code* p = & b; add( at + " without its " + what, [ p ]{ * p = Code{}; } ); node( a, b, at + "/" + what ); }
	// a part the code cannot be without: another type in its place, or changed within
	void must( Code& a, Code& b, const std::string& at, const char* what ) { if ( ! a || ! b ) return; Code* p = & b; if ( b->Type == CT_Typename && b->Name.Len ) add( at + " with another " + what, [ p ]{ * p = (Code)def_type( txt( "Another" ) ); } ); node( a, b, at + "/" + what ); }
	void node( Code a, Code b, const std::string& path ) {
		if ( ! a || ! b || a.ast == b.ast || a->Type != b->Type ) return;
		std::string at = path + "." + kind( b ); bool name = false, mods = false;
		switch ( b->Type ) {
		case CT_Class: case CT_Struct: mods = true; case CT_Class_Fwd: case CT_Struct_Fwd: name = true; part( a->Attributes, b->Attributes, at, "attributes" ); part( a->ParentType, b->ParentType, at, "parent" ); if ( b->Type == CT_Class || b->Type == CT_Struct ) must( a->Body, b->Body, at, "body" );
			add( at + " with another access to its parent", [ b ]{ Code c = b; ((CodeClass)c)->ParentAccess = (AccessSpec)( ( ((CodeClass)c)->ParentAccess + 1 ) % 4 ); } ); break;
		case CT_Constructor: must( a->Body, b->Body, at, "body" ); case CT_Constructor_Fwd: part( a->InitializerList, b->InitializerList, at, "initializer list" ); part( a->Params, b->Params, at, "parameters" ); break;
		case CT_Destructor: must( a->Body, b->Body, at, "body" ); case CT_Destructor_Fwd: part( a->Specs, b->Specs, at, "specifiers" ); break;
		case CT_Enum: case CT_Enum_Class: must( a->Body, b->Body, at, "body" ); case CT_Enum_Fwd: case CT_Enum_Class_Fwd: name = mods = true; part( a->Attributes, b->Attributes, at, "attributes" ); part( a->UnderlyingType, b->UnderlyingType, at, "underlying type" ); break;
		case CT_Extern_Linkage: name = true; must( a->Body, b->Body, at, "body" ); break;
		case CT_Friend: must( a->Declaration, b->Declaration, at, "declaration" ); break;
		case CT_Function: case CT_Operator: case CT_Operator_Member: must( a->Body, b->Body, at, "body" );
		case CT_Function_Fwd: case CT_Operator_Fwd: case CT_Operator_Member_Fwd: name = mods = true; must( a->ReturnType, b->ReturnType, at, "return type" ); part( a->Attributes, b->Attributes, at, "attributes" ); part( a->Specs, b->Specs, at, "specifiers" ); part( a->Params, b->Params, at, "parameters" ); if ( b->Type == CT_Function || b->Type == CT_Function_Fwd ) part( a->SuffixSpecs, b->SuffixSpecs, at, "suffix specifiers" ); break;
		case CT_Operator_Cast: must( a->Body, b->Body, at, "body" ); case CT_Operator_Cast_Fwd: must( a->ValueType, b->ValueType, at, "type" ); part( a->Specs, b->Specs, at, "specifiers" ); break;
		case CT_Namespace: name = mods = true; must( a->Body, b->Body, at, "body" ); break;
		case CT_Parameters: {
			Code x = a, y = b; for ( int i = 0; x && y; x = x->Next, y = y->Next, ++i ) { std::string q = at + pbt::fmt( "[%d]", i ); Code* p = & y; (void)p; Code yy = y; add( q + " of another name", [ yy ]{ Code c = yy; c->Name = cache_str( gx::S( gx::X( c->Name ) + "_m" ) ); } ); must( x->ValueType, y->ValueType, q, "type" ); part( x->Value, y->Value, q, "value" ); part( x->Macro, y->Macro, q, "macro" ); part( x->PostNameMacro, y->PostNameMacro, q, "macro after the name" ); }
			add( at + " with one more", [ b ]{ params_append( (CodeParams)b, def_param( t_int, txt( "more" ) ) ); } ); break; }
		case CT_Preprocess_Define: name = true; break;
		case CT_Specifiers: { CodeSpecifiers s = (CodeSpecifiers)b; for ( int i = 0; i < s->NumEntries; ++i ) add( at + pbt::fmt( "[%d] another", i ), [ s, i ]{ CodeSpecifiers t = s; t->ArrSpecs[ i ] = t->ArrSpecs[ i ] == Spec_Const ? Spec_Static : Spec_Const; } ); if ( s->NumEntries < AST_ArrSpecs_Cap ) add( at + " with one more", [ s ]{ specifiers_append( s, Spec_Inline ); } ); break; }
		case CT_Template: mods = true; part( a->Params, b->Params, at, "parameters" ); must( a->Declaration, b->Declaration, at, "declaration" ); break;
		case CT_Typedef: name = mods = true; must( a->UnderlyingType, b->UnderlyingType, at, "type" ); break;
		case CT_Typename: name = true; part( a->Specs, b->Specs, at, "specifiers" ); part( a->ArrExpr, b->ArrExpr, at, "array expression" ); add( at + " as a pack", [ b ]{ Code c = b; ((CodeTypename)c)->IsParamPack = ! ((CodeTypename)c)->IsParamPack; } ); break;
		case CT_Union: must( a->Body, b->Body, at, "body" ); case CT_Union_Fwd: name = mods = true; part( a->Attributes, b->Attributes, at, "attributes" ); break;
		case CT_Using: must( a->UnderlyingType, b->UnderlyingType, at, "type" ); part( a->Attributes, b->Attributes, at, "attributes" ); case CT_Using_Namespace: name = mods = true; break;
		case CT_Variable: name = mods = true; must( a->ValueType, b->ValueType, at, "type" ); part( a->BitfieldSize, b->BitfieldSize, at, "width" ); part( a->Value, b->Value, at, "value" ); part( a->Attributes, b->Attributes, at, "attributes" ); part( a->Specs, b->Specs, at, "specifiers" ); part( a->NextVar, b->NextVar, at, "next variable" ); break;
		default: break;
		}
		if ( code_is_body( b ) ) {
			int i = 0; for ( Code x = a->Front, y = b->Front; x && y; x = x->Next, y = y->Next, ++i ) node( x, y, at + pbt::fmt( "[%d]", i ) );
			add( at + " with one more", [ b ]{ body_append( (CodeBody)b, untyped_str( txt( "more" ) ) ); } );
			for ( Code x = a->Front, y = b->Front; x && y && y->Next; x = x->Next, y = y->Next ) if ( y->Type != y->Next->Type ) { add( at + " in another order", [ b, y ]{   // swap y and its successor
				Code p = y, q = p->Next, body = b, before = p->Prev, after = q->Next; if ( body->Front.ast == p.ast ) body->Front = q; else before->Next = q; if ( body->Back.ast == q.ast ) body->Back = p; else if ( after ) after->Prev = p; q->Prev = before; q->Next = p; p->Prev = q; p->Next = after; } ); break; }
		}
		if ( name ) add( at + " of another name", [ b ]{ Code c = b; c->Name = cache_str( gx::S( gx::X( c->Name ) + "_m" ) ); } );
		if ( mods ) add( at + " of other module flags", [ b ]{ Code c = b; c->ModuleFlags = (ModuleFlag)( c->ModuleFlags ^ ModuleFlag_Export ); } );
	}
};
static void equality( pbt::Gen& g ) {
	SG sg( g ); with_macros( sg ); size_t nm = sg.macs.size(); D d = sg.file( 3 ); sg.glue( d.s ); std::string text = src::canonical( d.s ), other; pbt::describe( g, text );
	fresh(); reg_all( sg, nm ); Code a = parse( text ), b = parse( text );
	PBT_CHECK( code_is_equal( a, a ), "not equal to itself:\n%s", text.c_str() ); PBT_CHECK( code_is_equal( a, b ) && code_is_equal( b, a ), "not equal to the same source parsed again:\n%s", text.c_str() );
	Code dup = code_duplicate( a ); PBT_CHECK( code_is_equal( a, dup ) && code_is_equal( dup, a ), "not equal to its duplicate:\n%s", text.c_str() ); PBT_CHECK( str( dup ) == str( a ), "the duplicate serializes otherwise:\n%s", text.c_str() );
	for ( Code x = a->Front; x; x = x->Next ) { Code k = code_duplicate( x ); PBT_CHECK( code_is_equal( x, k ) && ! k->Parent, "an entry is not equal to its duplicate:\n%s", text.c_str() ); }
	Sites s; s.node( a, b, "" ); if ( s.v.empty() ) throw pbt::Discard{};
	Site& site = s.v[ g.draw( s.v.size() ) ]; pbt::describe( g, text + "\n-- changed to " + site.what + "\n" ); site.change(); g.label( site.what.substr( site.what.rfind( '.' ) + 1 ) ); g.nontrivial = true;
	PBT_CHECK( ! code_is_equal( a, b ), "equal to %s:\n%s", site.what.c_str(), text.c_str() ); PBT_CHECK( ! code_is_equal( b, a ), "equal, seen from %s:\n%s", site.what.c_str(), text.c_str() );
}
int main( int argc, char** argv ) {
	return run_main( argc, argv, "C08", "more than four appends to bodies, more than two to parameter lists, a removal from specifiers, more than one interface, a comparison with a changed tree", {
		{ "bodies", bodies, 12000, 250000, 300, 10 }, { "parameters", params, 10000, 150000, 300, 10 }, { "specifiers", specifiers, 15000, 250000, 300, 10 }, { "interfaces", interfaces, 6000, 60000, 300, 10 }, { "equality", equality, 12000, 250000, 100, 15 } } );
}

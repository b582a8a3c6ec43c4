// Random tables of macros (SG::Mac) and their registration.
#pragma once
#include "src_main.hpp"
static std::vector<SG::Mac> table( pbt::Gen& g ) {
	static const char* stems[] = { "ST", "macro_x", "DECLARE_THING", "_api", "PP2", "EX", "Ty", "UPROPERTY", "GEN_M", "m", "XX", "value_of", "NO_RETURN" };
	std::vector<SG::Mac> t; int n = 2 + (int)g.draw( 9 );
	for ( int i = 0; i < n; ++i ) {
		SG::Mac m{}; m.n = g.pick( std::vector<std::string>( std::begin( stems ), std::end( stems ) ) ) + "_" + std::to_string( i ); m.fn = g.coin();
		switch ( g.draw( 8 ) ) {
		case 0: m.kind = 's'; break; case 1: m.kind = 's'; m.body = true; break; case 2: m.kind = 's'; m.def = true; m.body = g.coin( 1, 3 ); break;
		case 3: m.kind = 'e'; break; case 4: m.kind = 'e'; m.attr = true; break; case 5: m.kind = 'e'; m.spec = true; break;
		case 6: m.kind = 't'; break; case 7: m.kind = g.coin() ? 'e' : 't'; m.ident = true; m.fn = false; break;
		}
		t.push_back( m );
	}
	return t;
}
static Macro to_macro( const SG::Mac& m ) {
	u32 f = ( m.fn ? MF_Functional : 0 ) | ( m.body ? MF_Expects_Body : 0 ) | ( m.ident ? MF_Allow_As_Identifier : 0 ) | ( m.attr ? MF_Allow_As_Attribute : 0 ) | ( m.def ? MF_Allow_As_Definition : 0 ) | ( m.spec ? MF_Allow_As_Specifier : 0 );
	return Macro{ gx::S( m.n ), m.kind == 's' ? MT_Statement : m.kind == 'e' ? MT_Expression : MT_Typename, (MacroFlags)f };
}
static std::string show( const std::vector<SG::Mac>& t ) { std::string o = "macros:"; for ( auto& m : t ) o += " " + m.n + ( m.fn ? "()" : "" ) + ":" + m.kind + ( m.body ? "+body" : "" ) + ( m.ident ? "+ident" : "" ) + ( m.attr ? "+attr" : "" ) + ( m.def ? "+def" : "" ) + ( m.spec ? "+spec" : "" ); return o + "\n"; }
// for the checks whose property isn't about macros: some of their sources use registered ones
static void with_macros( SG& sg, int den = 4 ) { if ( ! sg.g.coin( 1, den ) ) return; sg.macs = table( sg.g ); sg.g.label( "macros" ); }
static void reg_all( const SG& sg, size_t n ) { for ( size_t i = 0; i < n && i < sg.macs.size(); ++i ) register_macro( to_macro( sg.macs[ i ] ) ); }

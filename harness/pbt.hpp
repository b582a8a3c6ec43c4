// pbt.hpp - a small property-based testing engine.
//
//  * Every random decision of a case goes through pbt::Gen::draw(n); the sequence of drawn values IS the
//    case.  Shrinking edits that sequence (delete chunks, zero, halve, decrement), replay feeds it back.
//  * Cases run in forked workers, so a crash / sanitizer report / runaway loop of the code under test is an
//    ordinary failing case.  CPU time (not wall time) bounds one case.
//  * A failure is shrunk, replayed 3 times, written to a replay file, and only then reported.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <algorithm>
#include <chrono>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <poll.h>

namespace pbt {

struct Fail    { std::string msg; };
struct Discard { };

inline std::string vfmt( const char* f, va_list va ) {
	va_list c; va_copy( c, va ); int n = vsnprintf( nullptr, 0, f, c ); va_end( c );
	std::string s( (size_t)n + 1, 0 ); vsnprintf( &s[0], s.size(), f, va ); s.resize( n ); return s;
}
inline std::string fmt( const char* f, ... ) { va_list va; va_start( va, f ); auto s = vfmt( f, va ); va_end( va ); return s; }
[[noreturn]] inline void fail( const char* f, ... ) { va_list va; va_start( va, f ); auto s = vfmt( f, va ); va_end( va ); throw Fail{ s }; }
#define PBT_CHECK( cond, ... ) do { if ( ! ( cond ) ) ::pbt::fail( __VA_ARGS__ ); } while ( 0 )

inline std::string show( const std::string& s, size_t max = 4000 ) {
	std::string o; for ( unsigned char c : s ) {
		if ( o.size() > max ) { o += "..."; break; }
		if ( c == '\n' ) o += "\\n"; else if ( c == '\t' ) o += "\\t"; else if ( c == '\\' ) o += "\\\\";
		else if ( c < 32 || c >= 127 ) o += fmt( "\\x%02x", c ); else o += (char)c;
	} return o;
}
inline uint64_t mix( uint64_t x ) { x += 0x9E3779B97F4A7C15ull; x = ( x ^ ( x >> 30 ) ) * 0xBF58476D1CE4E5B9ull; x = ( x ^ ( x >> 27 ) ) * 0x94D049BB133111EBull; return x ^ ( x >> 31 ); }
inline uint64_t hash( const std::string& s ) { uint64_t h = 1469598103934665603ull; for ( unsigned char c : s ) h = ( h ^ c ) * 1099511628211ull; return mix( h ); }

// choices of the running case, mirrored into shared memory so that a crash can still be shrunk
struct Mirror { uint64_t n; uint64_t v[ 1 << 18 ]; char desc[ 1 << 18 ]; };
inline Mirror*& mirror() { static Mirror* m = nullptr; return m; }

struct Gen {
	std::vector<uint64_t> rec;
	const std::vector<uint64_t>* replay = nullptr;
	size_t   pos   = 0;
	uint64_t state = 0;
	int      size  = 30;      // grows during a run: a hint for the generators
	// what the case reports
	std::vector<std::string> labels;
	bool        nontrivial = false;
	std::string key;          // identity of the case, for the distinct count
	std::string desc;         // human rendering

	uint64_t next() { state += 0x9E3779B97F4A7C15ull; return mix( state ); }
	uint64_t draw( uint64_t n ) {
		uint64_t v;
		if ( n <= 1 ) { v = 0; }
		else if ( replay ) { v = pos < replay->size() ? (*replay)[ pos ] : 0; ++pos; if ( v >= n ) v = n - 1; }
		else v = next() % n;
		if ( n > 1 ) { rec.push_back( v ); if ( Mirror* m = mirror() ) if ( m->n < ( 1 << 18 ) ) m->v[ m->n++ ] = v; }
		if ( rec.size() > 200000 ) throw Discard{};
		return v;
	}
	int64_t range( int64_t lo, int64_t hi ) { return lo + (int64_t)draw( (uint64_t)( hi - lo ) + 1 ); }
	bool    coin( int num = 1, int den = 2 ) { return (int)draw( den ) >= den - num; }       // shrinks to false
	uint64_t bits( int n ) { if ( n >= 64 ) { uint64_t h = draw( 1ull << 32 ); return ( h << 32 ) | draw( 1ull << 32 ); } return draw( 1ull << n ); }
	template<class T> const T& pick( const std::vector<T>& v ) { return v[ draw( v.size() ) ]; }
	const char* pick( std::initializer_list<const char*> v ) { return *( v.begin() + draw( v.size() ) ); }
	int weighted( std::initializer_list<int> w ) { int t = 0; for ( int x : w ) t += x; int v = (int)draw( t ), i = 0; for ( int x : w ) { if ( v < x ) return i; v -= x; ++i; } return 0; }
	// list length via "continue" flags, so that deleting a chunk of choices removes elements
	template<class F> int many( int min, int max, F body, int avg = 3 ) {
		int i = 0; while ( i < max ) { if ( i >= min && ! coin( avg, avg + 1 ) ) break; body( i ); ++i; } return i;
	}
	void label( const std::string& s ) { labels.push_back( s ); }
	std::string str( const char* alphabet, int min, int max ) { std::string o; size_t n = strlen( alphabet ); int len = (int)range( min, max ); while ( len-- ) o += alphabet[ draw( n ) ]; return o; }
};

struct Suite {
	std::string name;
	std::function<void( Gen& )> run;
	int quick = 1000, thorough = 20000;      // number of cases
	int batch = 100;                         // cases per worker process (bounds leaked memory)
	double cpu = 15;                         // CPU seconds for one case
};
struct Pinned { std::string id; std::string what; std::function<void()> run; };   // run throws Fail / crashes while the finding persists

struct Config {
	std::string property, tier = "quick", out, known, replay_dir, rule;
	uint64_t    seed = 1;
	int         jobs = 8;
	double      wall = 700;
	std::vector<std::string> assumptions;
};

namespace detail {
struct Shared { volatile long cur; volatile long done; };
inline double now() { return std::chrono::duration<double>( std::chrono::steady_clock::now().time_since_epoch() ).count(); }
inline std::string read_file( const std::string& p ) { std::string s; FILE* f = fopen( p.c_str(), "rb" ); if ( ! f ) return s; char b[ 65536 ]; size_t n; while ( ( n = fread( b, 1, sizeof b, f ) ) ) s.append( b, n ); fclose( f ); return s; }
inline void write_file( const std::string& p, const std::string& s ) { FILE* f = fopen( p.c_str(), "wb" ); if ( f ) { fwrite( s.data(), 1, s.size(), f ); fclose( f ); } }
inline void arm( double cpu ) { struct itimerval t = {}; t.it_value.tv_sec = (long)cpu; t.it_value.tv_usec = (long)( ( cpu - (long)cpu ) * 1e6 ); setitimer( ITIMER_PROF, &t, nullptr ); }
inline std::string json( const std::string& s ) { std::string o = "\""; for ( unsigned char c : s ) { if ( c == '"' || c == '\\' ) { o += '\\'; o += (char)c; } else if ( c < 32 || c >= 127 ) o += fmt( "\\u%04x", c ); else o += (char)c; } return o + "\""; }

inline std::string crash_text( const std::string& log, int st ) {
	std::string why;
	if ( WIFSIGNALED( st ) ) why = WTERMSIG( st ) == SIGPROF ? "does not terminate (CPU limit for one case)" : fmt( "killed by signal %d", WTERMSIG( st ) );
	else why = fmt( "exited with %d", WEXITSTATUS( st ) );
	size_t p = log.find( "ERROR: " ); if ( p == std::string::npos ) p = log.find( "runtime error" );
	if ( p != std::string::npos ) { size_t b = log.rfind( '\n', p ); b = b == std::string::npos ? 0 : b + 1; why += " :: " + log.substr( b, 900 ); }
	else if ( log.size() ) why += " :: " + log.substr( log.size() > 400 ? log.size() - 400 : 0 );
	return why;
}

// run one case in a forked child.  kind: 0 ok, 1 Fail, 2 crash, 3 hang, 4 discarded
struct One { int kind = 0; std::string msg, desc; std::vector<uint64_t> rec; };
inline One run_one( const Suite& s, const std::vector<uint64_t>* choices, uint64_t state, int size, const std::string& tmp ) {
	int pfd[ 2 ]; if ( pipe( pfd ) ) abort();
	static Mirror* mm = (Mirror*)mmap( nullptr, sizeof( Mirror ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
	mm->n = 0; mm->desc[ 0 ] = 0;
	fflush( nullptr );
	pid_t pid = fork();
	if ( pid == 0 ) {
		prctl( PR_SET_PDEATHSIG, SIGKILL );
		close( pfd[ 0 ] ); mirror() = mm;
		int lf = open( tmp.c_str(), O_CREAT | O_TRUNC | O_RDWR | O_APPEND, 0600 ); dup2( lf, 1 ); dup2( lf, 2 );
		Gen g; g.replay = choices; g.state = state; g.size = size;
		arm( s.cpu );
		int kind = 0; std::string msg;
		try { s.run( g ); } catch ( Fail& f ) { kind = 1; msg = f.msg; } catch ( Discard& ) { kind = 4; }
		std::string o = fmt( "%d %zu %zu %zu\n", kind, msg.size(), g.desc.size(), g.rec.size() ) + msg + g.desc;
		o.append( (char*)g.rec.data(), g.rec.size() * 8 );
		size_t w = 0; while ( w < o.size() ) { ssize_t n = write( pfd[ 1 ], o.data() + w, o.size() - w ); if ( n <= 0 ) break; w += n; }
		_exit( 0 );
	}
	close( pfd[ 1 ] );
	std::string in; char b[ 65536 ]; ssize_t n; while ( ( n = read( pfd[ 0 ], b, sizeof b ) ) > 0 ) in.append( b, n );
	close( pfd[ 0 ] );
	int st; waitpid( pid, &st, 0 );
	One r; size_t nl = in.find( '\n' ); int kind; size_t a, d, c;
	if ( WIFEXITED( st ) && WEXITSTATUS( st ) == 0 && nl != std::string::npos && sscanf( in.c_str(), "%d %zu %zu %zu", &kind, &a, &d, &c ) == 4 && in.size() >= nl + 1 + a + d + c * 8 ) {
		r.kind = kind; r.msg = in.substr( nl + 1, a ); r.desc = in.substr( nl + 1 + a, d );
		r.rec.resize( c ); memcpy( r.rec.data(), in.data() + nl + 1 + a + d, c * 8 );
	} else {
		r.kind = WIFSIGNALED( st ) && WTERMSIG( st ) == SIGPROF ? 3 : 2;
		r.msg  = crash_text( read_file( tmp ), st ); r.desc = mm->desc; r.rec.assign( mm->v, mm->v + mm->n );
	}
	return r;
}
} // detail

// harnesses call this as soon as the case is rendered, so crashes have a readable description
inline void describe( Gen& g, const std::string& d ) {
	g.desc = d;
	if ( Mirror* m = mirror() ) { size_t n = std::min( d.size(), sizeof( m->desc ) - 1 ); memcpy( m->desc, d.data(), n ); m->desc[ n ] = 0; }
}

struct Engine {
	Config cfg; std::vector<Suite> suites; std::vector<Pinned> pinned;
	struct Stats { long evals = 0, discards = 0, nontriv = 0; std::unordered_set<uint64_t> keys; std::map<std::string,long> labels; std::vector<std::string> samples; };
	std::map<std::string, Stats> stats;
	struct Failure { std::string suite; std::vector<uint64_t> choices; std::string msg, desc; int kind; long from = -1, to = -1; };
	std::string tmpdir; double t0;

	uint64_t case_state( size_t si, long i ) { return mix( mix( cfg.seed * 1000003ull + hash( suites[ si ].name ) ) + (uint64_t)i ); }
	static int case_size( long i, long n ) { return 5 + (int)( 60.0 * ( ( i * 7919 ) % ( n > 1 ? n : 1 ) ) / ( n > 1 ? n : 1 ) ); }

	// run all cases of a suite in forked workers; returns false + failure on the first failing case
	bool run_suite( size_t si, Failure& out ) {
		Suite& s = suites[ si ]; Stats& S = stats[ s.name ];
		long total = cfg.tier == "thorough" ? s.thorough : s.quick;
		if ( getenv( "PBT_CASES" ) ) total = atol( getenv( "PBT_CASES" ) );
		struct W { pid_t pid = 0; int fd = -1; std::string buf, log; Mirror* m = nullptr; detail::Shared* sh = nullptr; long next, end; };
		std::vector<W> ws( cfg.jobs );
		for ( auto& w : ws ) {
			w.m  = (Mirror*)mmap( nullptr, sizeof( Mirror ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
			w.sh = (detail::Shared*)mmap( nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
		}
		long next = 0; bool failed = false; long fail_case = -1;
		auto spawn = [&]( W& w, size_t wi ) {
			w.next = next; w.end = std::min( total, next + s.batch ); next = w.end; w.buf.clear(); w.log = tmpdir + fmt( "/w%zu.log", wi );
			w.sh->cur = -1; w.sh->done = 0; w.m->n = 0; w.m->desc[ 0 ] = 0;
			int p[ 2 ]; if ( pipe( p ) ) abort(); fflush( nullptr );
			pid_t pid = fork();
			if ( pid == 0 ) {
				prctl( PR_SET_PDEATHSIG, SIGKILL );
				close( p[ 0 ] ); mirror() = w.m;
				int lf = open( w.log.c_str(), O_CREAT | O_TRUNC | O_RDWR | O_APPEND, 0600 ); dup2( lf, 1 ); dup2( lf, 2 );
				std::string o;
				for ( long i = w.next; i < w.end; ++i ) {
					if ( ftruncate( lf, 0 ) ) {}
					w.sh->cur = i; w.m->n = 0; w.m->desc[ 0 ] = 0;
					Gen g; g.state = case_state( si, i ); g.size = case_size( i, total );
					detail::arm( s.cpu );
					int kind = 0; std::string msg;
					try { s.run( g ); } catch ( Fail& f ) { kind = 1; msg = f.msg; } catch ( Discard& ) { kind = 4; }
					o = fmt( "%d %ld %d %llx %zu %zu %zu\n", kind, i, (int)g.nontrivial, (unsigned long long)hash( g.key.empty() ? g.desc : g.key ), g.labels.size(), msg.size(), ( i % 37 == 0 || kind == 1 ) ? g.desc.size() : (size_t)0 );
					for ( auto& l : g.labels ) o += l + "\n";
					o += msg; if ( i % 37 == 0 || kind == 1 ) o += g.desc;
					size_t n = o.size(); std::string h( (char*)&n, sizeof n ); h += o;
					size_t wr = 0; while ( wr < h.size() ) { ssize_t k = write( p[ 1 ], h.data() + wr, h.size() - wr ); if ( k <= 0 ) _exit( 3 ); wr += k; }
					if ( kind == 1 ) _exit( 0 );
					w.sh->done = i + 1;
				}
				_exit( 0 );
			}
			close( p[ 1 ] ); w.pid = pid; w.fd = p[ 0 ];
		};
		auto take = [&]( W& w ) {
			size_t off = 0; size_t n;
			while ( w.buf.size() - off >= sizeof n && ( memcpy( &n, w.buf.data() + off, sizeof n ), w.buf.size() - off - sizeof n >= n ) ) {
				std::string m = w.buf.substr( off + sizeof n, n ); off += sizeof n + n;
				int kind, nt; long i; unsigned long long k; size_t nl, ml, dl; sscanf( m.c_str(), "%d %ld %d %llx %zu %zu %zu", &kind, &i, &nt, &k, &nl, &ml, &dl );
				size_t p = m.find( '\n' ) + 1;
				if ( kind == 4 ) { S.discards++; continue; }
				S.evals++;
				for ( size_t j = 0; j < nl; ++j ) { size_t e = m.find( '\n', p ); S.labels[ m.substr( p, e - p ) ]++; p = e + 1; }
				if ( nt ) { S.nontriv++; S.keys.insert( k ); }
				if ( kind == 1 ) { if ( ! failed || i < fail_case ) { failed = true; fail_case = i; out = { s.name, std::vector<uint64_t>( w.m->v, w.m->v + w.m->n ), m.substr( p, ml ), m.substr( p + ml, dl ), 1, w.next, i }; } }
				else if ( nt && dl && S.samples.size() < 12 ) S.samples.push_back( m.substr( p + ml, dl ) );
			}
			w.buf.erase( 0, off );
		};
		for ( ;; ) {
			bool live = false;
			for ( size_t wi = 0; wi < ws.size(); ++wi ) {
				W& w = ws[ wi ];
				if ( ! w.pid && ! failed && next < total && detail::now() - t0 < cfg.wall ) spawn( w, wi );
				live |= w.pid != 0;
			}
			if ( ! live ) break;
			std::vector<pollfd> pf; std::vector<W*> who;
			for ( auto& w : ws ) if ( w.pid ) { pf.push_back( { w.fd, POLLIN, 0 } ); who.push_back( &w ); }
			poll( pf.data(), pf.size(), 1000 );
			for ( size_t j = 0; j < pf.size(); ++j ) if ( pf[ j ].revents ) {
				W& w = *who[ j ]; char b[ 65536 ]; ssize_t n = read( w.fd, b, sizeof b );
				if ( n > 0 ) { w.buf.append( b, n ); take( w ); continue; }
				close( w.fd ); int st; waitpid( w.pid, &st, 0 ); w.pid = 0;
				if ( ! ( WIFEXITED( st ) && WEXITSTATUS( st ) == 0 ) ) {
					long i = w.sh->cur; S.evals++;
					if ( ! failed || i < fail_case ) {
						failed = true; fail_case = i;
						int kind = WIFSIGNALED( st ) && WTERMSIG( st ) == SIGPROF ? 3 : 2;
						out = { s.name, std::vector<uint64_t>( w.m->v, w.m->v + w.m->n ), detail::crash_text( detail::read_file( w.log ), st ), w.m->desc, kind, w.next, i };
					}
				}
			}
		}
		for ( auto& w : ws ) { munmap( w.m, sizeof( Mirror ) ); munmap( w.sh, 4096 ); }
		if ( ! failed && S.evals + S.discards < total ) printf( "note: suite %s stopped at %ld of %ld cases (wall budget)\n", s.name.c_str(), S.evals, total );
		return ! failed;
	}

	bool still( const Suite& s, const std::vector<uint64_t>& c, int kind, detail::One& r ) {
		r = detail::run_one( s, &c, 0, 30, tmpdir + "/shrink.log" );
		return r.kind == kind || ( kind == 2 && r.kind == 1 ) ;
	}
	// a failure that needs the earlier cases of its worker: replay the whole run of cases in one child
	bool still_chain( size_t si, const Failure& f, detail::One& r ) {
		Suite s = suites[ si ]; Suite& real = suites[ si ]; long total = cfg.tier == "thorough" ? s.thorough : s.quick;
		s.cpu = real.cpu * ( f.to - f.from + 1 );
		s.run = [ =, &real, this ]( Gen& out ) {
			for ( long i = f.from; i <= f.to; ++i ) {
				Gen g; g.state = case_state( si, i ); g.size = case_size( i, total );
				try { real.run( g ); } catch ( Discard& ) {} catch ( Fail& x ) { out.desc = g.desc; throw; }
			}
		};
		r = detail::run_one( s, nullptr, 0, 30, tmpdir + "/shrink.log" );
		return r.kind == 1 || r.kind == 2 || r.kind == 3;
	}
	void shrink( Failure& f ) {
		Suite* s = nullptr; for ( auto& x : suites ) if ( x.name == f.suite ) s = &x;
		Suite q = *s; if ( f.kind == 3 ) q.cpu = std::min( q.cpu, 4.0 );
		double end = detail::now() + ( f.kind == 3 ? 90 : 45 ); int budget = f.kind == 3 ? 60 : 4000;
		detail::One r; std::vector<uint64_t> best = f.choices;
		auto attempt = [&]( std::vector<uint64_t> c ) {
			if ( c == best || budget-- <= 0 || detail::now() > end ) return false;
			if ( ! still( q, c, f.kind, r ) ) return false;
			if ( r.kind == 1 && r.rec.size() <= c.size() ) c = r.rec;
			best = c; f.msg = r.msg; if ( r.desc.size() ) f.desc = r.desc; f.kind = r.kind; return true;
		};
		bool progress = true;
		while ( progress && budget > 0 && detail::now() < end ) {
			progress = false;
			for ( size_t k = std::max<size_t>( 1, best.size() / 2 ); k >= 1; k = k > 8 ? k / 2 : k - 1 )
				for ( size_t i = 0; i + k <= best.size(); ) {
					std::vector<uint64_t> c( best ); c.erase( c.begin() + i, c.begin() + i + k );
					if ( attempt( c ) ) progress = true; else i += k > 4 ? k / 2 : 1;
					if ( budget <= 0 || detail::now() > end ) break;
				}
			for ( size_t i = 0; i < best.size(); ++i ) if ( best[ i ] ) {
				std::vector<uint64_t> c( best ); c[ i ] = 0; if ( attempt( c ) ) { progress = true; continue; }
				while ( i < best.size() && best[ i ] > 1 ) { c = best; c[ i ] /= 2; if ( ! attempt( c ) ) break; progress = true; }
				if ( i < best.size() && best[ i ] ) { c = best; c[ i ]--; if ( attempt( c ) ) progress = true; }
			}
		}
		f.choices = best;
	}
	std::string replay_text( const Failure& f ) {
		std::string o = "property " + cfg.property + "\nsuite " + f.suite + "\nchoices";
		for ( auto v : f.choices ) o += fmt( " %llu", (unsigned long long)v );
		o += "\n# what failed:\n"; for ( auto& l : split( f.msg ) ) o += "#   " + l + "\n";
		o += "# case:\n"; for ( auto& l : split( f.desc ) ) o += "#   " + l + "\n";
		return o;
	}
	static std::vector<std::string> split( const std::string& s ) { std::vector<std::string> v; size_t p = 0; while ( p <= s.size() ) { size_t e = s.find( '\n', p ); if ( e == std::string::npos ) e = s.size(); v.push_back( s.substr( p, e - p ) ); p = e + 1; } return v; }

	int replay_file( const std::string& path ) {
		std::string t = detail::read_file( path ); Failure f; bool chain = false;
		for ( auto& l : split( t ) ) {
			if ( l.rfind( "suite ", 0 ) == 0 ) f.suite = l.substr( 6 );
			if ( l.rfind( "choices", 0 ) == 0 ) { const char* p = l.c_str() + 7; char* e; for ( ;; ) { uint64_t v = strtoull( p, &e, 10 ); if ( e == p ) break; f.choices.push_back( v ); p = e; } }
		}
		size_t cp = t.find( ": chain " );
		if ( cp != std::string::npos ) { unsigned long long sd; char tier[ 32 ]; if ( sscanf( t.c_str() + cp, ": chain %llu %ld %ld %31s", &sd, &f.from, &f.to, tier ) == 4 ) { chain = true; cfg.seed = sd; cfg.tier = tier; } }
		for ( auto& s : suites ) if ( s.name == f.suite ) {
			detail::One rc; if ( chain ) still_chain( &s - &suites[ 0 ], f, rc );
			auto r = chain ? rc : detail::run_one( s, &f.choices, 0, 30, tmpdir + "/replay.log" );
			if ( r.desc.size() ) printf( "%s\n", r.desc.c_str() );
			if ( r.kind == 0 || r.kind == 4 ) { printf( "replay: property held\n" ); return 0; }
			printf( "replay: %s\nVIOLATION property=%s replay=%s\n", r.msg.c_str(), cfg.property.c_str(), path.c_str() ); return 1;
		}
		printf( "replay: unknown suite %s\n", f.suite.c_str() ); return 2;
	}

	void evidence( int violations, const std::vector<std::string>& notes ) {
		long ev = 0; size_t nt = 0; std::string samples, labels, known;
		for ( auto& s : suites ) {
			auto& S = stats[ s.name ]; ev += S.evals; nt += S.keys.size(); int k = 0;
			for ( auto& x : S.samples ) { if ( k++ >= ( suites.size() > 3 ? 2 : 4 ) ) break; if ( samples.size() ) samples += ",\n  "; samples += detail::json( s.name + ": " + x.substr( 0, 900 ) ); }
			labels += fmt( "%s%s: {\"evaluations\": %ld, \"discarded\": %ld, \"nontrivial\": %ld, \"distinct_nontrivial\": %zu", labels.size() ? ",\n  " : "", detail::json( s.name ).c_str(), S.evals, S.discards, S.nontriv, S.keys.size() );
			for ( auto& l : S.labels ) labels += fmt( ", %s: %ld", detail::json( l.first ).c_str(), l.second );
			labels += "}";
		}
		for ( auto& n : notes ) known += ( known.size() ? ", " : "" ) + detail::json( n );
		std::string as; for ( auto& a : cfg.assumptions ) as += ( as.size() ? ", " : "" ) + detail::json( a );
		std::string o = fmt( "{\n\"property\": \"%s\",\n\"tier\": \"%s\",\n\"seed\": %llu,\n\"level\": \"exploration\",\n\"coverage\": {\n \"evaluations\": %ld,\n \"distinct_nontrivial\": %zu,\n \"rule\": %s,\n \"samples\": [",
			cfg.property.c_str(), cfg.tier.c_str(), (unsigned long long)cfg.seed, ev, nt, detail::json( cfg.rule ).c_str() );
		o += samples + "],\n \"suites\": {" + labels + "},\n \"known_findings\": [" + known + "]\n},\n";
		o += fmt( "\"wall_s\": %.1f,\n\"violations\": %d,\n\"assumptions\": [", detail::now() - t0, violations ) + as + "]\n}\n";
		detail::write_file( cfg.out, o );
	}

	int main( int argc, char** argv ) {
		t0 = detail::now();
		std::string rep; bool only = false; std::string only_suite;
		for ( int i = 1; i < argc; ++i ) {
			std::string a = argv[ i ];
			if ( a == "--replay" && i + 1 < argc ) rep = argv[ ++i ];
			else if ( a == "--tier" && i + 1 < argc ) cfg.tier = argv[ ++i ];
			else if ( a == "--seed" && i + 1 < argc ) cfg.seed = strtoull( argv[ ++i ], nullptr, 10 );
			else if ( a == "--out" && i + 1 < argc ) cfg.out = argv[ ++i ];
			else if ( a == "--known" && i + 1 < argc ) cfg.known = argv[ ++i ];
			else if ( a == "--replays" && i + 1 < argc ) cfg.replay_dir = argv[ ++i ];
			else if ( a == "--wall" && i + 1 < argc ) cfg.wall = atof( argv[ ++i ] );
			else if ( a == "--suite" && i + 1 < argc ) { only = true; only_suite = argv[ ++i ]; }
		}
		char td[] = "/tmp/pbt.XXXXXX"; tmpdir = mkdtemp( td );
		struct Cleanup { std::string d; pid_t me = getpid(); ~Cleanup() { if ( getpid() != me ) return; for ( auto n : { "shrink.log", "replay.log", "pin.log" } ) unlink( ( d + "/" + n ).c_str() ); for ( int i = 0; i < 64; ++i ) unlink( ( d + fmt( "/w%d.log", i ) ).c_str() ); rmdir( d.c_str() ); } } cl{ tmpdir };
		if ( rep.size() ) return replay_file( rep );
		if ( only ) { std::vector<Suite> k; for ( auto& s : suites ) if ( s.name == only_suite ) k.push_back( s ); suites = k; }

		std::vector<std::string> notes; std::string known = detail::read_file( cfg.known );
		int rc = 0;
		for ( auto& p : pinned ) {
			Suite s; s.name = "pin"; s.cpu = 5; s.run = [&]( Gen& ) { p.run(); };
			auto r = detail::run_one( s, nullptr, 0, 0, tmpdir + "/pin.log" );
			bool listed = known.find( "property=" + cfg.property + " id=" + p.id + " " ) != std::string::npos;
			if ( r.kind && listed ) { printf( "KNOWN-FINDING: property=%s %s: %s\n", cfg.property.c_str(), p.id.c_str(), p.what.c_str() ); notes.push_back( p.id + ": " + p.what ); }
			else if ( r.kind ) {
				mkdir( cfg.replay_dir.c_str(), 0755 );
				std::string path = cfg.replay_dir + "/" + cfg.property + "-" + p.id + ".txt"; detail::write_file( path, "pinned case " + p.id + ": " + p.what + "\n" + r.msg + "\n" );
				printf( "pinned case %s fails: %s\nVIOLATION property=%s replay=%s\n", p.id.c_str(), r.msg.c_str(), cfg.property.c_str(), path.c_str() ); rc = 1;
			}
		}
		int viol = rc;
		for ( size_t i = 0; i < suites.size() && rc == 0; ++i ) {
			Failure f;
			double s0 = detail::now();
			if ( ! run_suite( i, f ) ) {
				printf( "suite %s: failing case found, shrinking (%zu choices): %.300s\n", f.suite.c_str(), f.choices.size(), f.msg.c_str() ); fflush( stdout );
				// confirm from the recorded choices before anything else
				detail::One r; int ok = 0;
				for ( int k = 0; k < 3; ++k ) if ( still( suites[ i ], f.choices, f.kind, r ) ) ++ok;
				bool chain = false;
				if ( ok < 3 ) {
					int okc = 0; Failure c = f;
					for ( int k = 0; k < 3; ++k ) if ( still_chain( i, c, r ) ) ++okc;
					if ( okc < 3 ) {
						printf( "note: the failure replays neither alone (%d of 3) nor after its predecessors (%d of 3); not reported\n%s\n%s\n", ok, okc, f.msg.c_str(), f.desc.c_str() );
						notes.push_back( "unreplayable failure in " + f.suite + ": " + f.msg.substr( 0, 300 ) );
						continue;
					}
					while ( c.from < c.to ) { Failure d = c; d.from = c.from + ( c.to - c.from + 1 ) / 2; if ( ! still_chain( i, d, r ) ) break; c = d; }
					f = c; chain = true;
				}
				if ( ! chain )
				shrink( f );
				ok = 0; for ( int k = 0; k < 3; ++k ) { if ( chain ? still_chain( i, f, r ) : still( suites[ i ], f.choices, f.kind, r ) ) ++ok; }
				mkdir( cfg.replay_dir.c_str(), 0755 );
				std::string text = replay_text( f ); if ( chain ) text += fmt( "# the failure needs its predecessors: chain %llu %ld %ld %s\n", (unsigned long long)cfg.seed, f.from, f.to, cfg.tier.c_str() );
				std::string path = cfg.replay_dir + fmt( "/%s-%s-%08llx.txt", cfg.property.c_str(), f.suite.c_str(), (unsigned long long)( hash( text ) & 0xffffffff ) );
				detail::write_file( path, text );
				printf( "shrunk to %zu choices; replayed %d/3\n%s\n--- case:\n%s\n", f.choices.size(), ok, f.msg.c_str(), f.desc.c_str() );
				printf( "VIOLATION property=%s replay=%s\n", cfg.property.c_str(), path.c_str() );
				rc = 1; viol++;
			} else {
				auto& S = stats[ suites[ i ].name ];
				printf( "suite %-28s %8ld cases, %7zu distinct non-trivial, %.1fs\n", suites[ i ].name.c_str(), S.evals, S.keys.size(), detail::now() - s0 );
				if ( getenv( "PBT_LABELS" ) ) for ( auto& l : S.labels ) printf( "      %-40s %ld\n", l.first.c_str(), l.second );
			}
			fflush( stdout );
		}
		if ( cfg.out.size() ) evidence( viol, notes );
		return rc;
	}
};
} // pbt

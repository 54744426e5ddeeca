// Native runtime of the contract language: replays one input vector, or runs N pseudo-random ones.
#include "vc.h"
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <map>
#include <string>
#include <vector>
#include <csetjmp>
#include <exception>
#include <unistd.h>

static std::map< std::string, void (*)() >& table() { static std::map< std::string, void (*)() > t; return t; }
vc_reg::vc_reg( const char* n, void (*f)() ) { table()[ n ] = f; }

#include <new>
static int blocks;
void* operator new( size_t n ) { void* p = malloc( n ? n : 1 ); if( !p ) abort(); ++blocks; return p; }
void* operator new[]( size_t n ) { void* p = malloc( n ? n : 1 ); if( !p ) abort(); ++blocks; return p; }
void operator delete( void* p ) noexcept { if( p ) --blocks; free( p ); }
void operator delete[]( void* p ) noexcept { if( p ) --blocks; free( p ); }
struct vc_skip {};
static std::vector< double > input;
static size_t pos;
static bool random_mode;
static bool quiet;
static bool stopping;
static unsigned long long rng = 88172645463325252ULL;
static unsigned long long rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
static std::vector< double > drawn;
static const std::vector< double >* script;   // values to be replayed with small relative changes
static long failures;
static std::string first_fail;
static std::string watch;
static double error;
static bool seen, truth;
static int regime;
static double tol_d = 1e-7;    // replay of a loss of precision: 1e-9

static double next( int kind )
{
    if( !random_mode )
    {
        if( pos >= input.size() ) return 0;
        return input[ pos++ ];
    }
    if( script )
    {
        if( pos >= script->size() ) return 0;
        double x = ( *script )[ pos++ ];
        if( kind == 0 ) x *= 1 + ( (double)( rnd() % 2049 ) - 1024 ) / 1048576.;
        return x;
    }
    double v;
    unsigned r = rnd() % 16;
    if( kind == 0 )
        switch( regime ) {
        case 0: v = (double)(int)( rnd() % 7 ) - 3; break;
        case 1: v = ( (double)(int)( rnd() % 513 ) - 256 ) / 64.; break;
        case 2: v = ( (double)(int)( rnd() % 2001 ) - 1000 ) / 16.; break;
        default: v = (double)( rnd() % 129 ) / 128.; break; }
    else
        v = r < 10 ? (double)( rnd() % 8 ) : r < 13 ? (double)( rnd() % 256 ) : -(double)( rnd() % 8 );
    drawn.push_back( v );
    return v;
}

static void fail( const char* m, double a, double b )
{
    if( !failures++ ) { first_fail = m; if( !script ) { error = a - b; truth = a == 0 && b == 1; } }
    if( script && watch == m ) { seen = true; error = a - b; }
    if( !quiet ) printf( "FAILED %s (%.17g vs %.17g)\n", m, a, b );
}

static bool close( double a, double b, double tol )
{
    if( a == b ) return true;
    double d = std::fabs( a - b );
    return d <= tol * ( 1 + std::fabs( a ) + std::fabs( b ) );
}

extern "C" {
double   vc_f64() { return next( 0 ); }
float    vc_f32() { return (float)next( 0 ); }
int32_t  vc_i32() { return (int32_t)(int64_t)next( 1 ); }
uint32_t vc_u32() { return (uint32_t)(int64_t)next( 1 ); }
uint8_t  vc_u8()  { return (uint8_t)(int64_t)next( 1 ); }
int8_t   vc_i8()  { return (int8_t)(int64_t)next( 1 ); }
int16_t  vc_i16() { return (int16_t)(int64_t)next( 1 ); }
uint16_t vc_u16() { return (uint16_t)(int64_t)next( 1 ); }
int64_t  vc_i64() { return (int64_t)next( 1 ); }
uint64_t vc_u64() { return (uint64_t)(int64_t)next( 1 ); }
bool     vc_bool(){ return ( (int64_t)next( 1 ) & 1 ) != 0; }
size_t   vc_size( size_t lo, size_t hi )
{
    double d = next( 1 );
    if( random_mode )
    {
        size_t w = hi - lo + 1;
        size_t k = (size_t)(int64_t)d;
        if( w == 0 ) return k;
        if( d < 0 ) return hi - ( (size_t)( -d ) % w );
        return lo + k % w;
    }
    if( d >= 18446744073709551615. ) return hi;
    size_t k = d < 0 ? lo : (size_t)d;
    return k < lo ? lo : k > hi ? hi : k;
}
int64_t  vc_int( int64_t lo, int64_t hi )
{
    const double d = next( 1 );
    const int64_t k = d >= 9.2e18 ? hi : d <= -9.2e18 ? lo : (int64_t)d;
    return k < lo ? lo : k > hi ? hi : k;
}
void vc_assume( bool c ) { if( !c ) throw vc_skip(); }
void vc_check( bool c, const char* m ) { if( !c ) fail( m, 0, 1 ); }
void vc_check_eqd( double a, double b, const char* m ) { if( !close( a, b, tol_d ) ) fail( m, a, b ); }
void vc_check_eqf( float a, float b, const char* m ) { if( !close( a, b, 1e-3 ) ) fail( m, a, b ); }
bool vc_eqd( double a, double b ) { return close( a, b, tol_d ); }
bool vc_eqf( float a, float b ) { return close( a, b, 1e-3 ); }
float vc_rnd32( double d ) { return (float)d; }
void vc_cover( const char* ) {}
void vc_stops( bool on ) { stopping = on; }
int vc_heap() { return blocks; }
bool vc_symbolic() { return false; }
bool vc_random() { return random_mode; }
}

static jmp_buf stopped;
extern "C" void __assert_fail( const char* e, const char* f, unsigned l, const char* ) noexcept
{
    if( stopping ) longjmp( stopped, 1 );
    fprintf( stderr, "%s:%u: assertion failed: %s\n", f, l, e );
    abort();
}
static int run( void (*f)() )
{
    // 0 held, 1 failed, 3 precondition not met
    stopping = false;
    if( setjmp( stopped ) ) return failures ? 1 : 0;
    try { f(); }
    catch( const vc_skip& ) { return failures ? 1 : 3; }
    catch( ... ) { fail( "no exception escapes the contract", 0, 1 ); }
    return failures ? 1 : 0;
}

// Contracts are about exact arithmetic: a failure that mostly disappears when the input moves by up to a thousandth is
// the rounding of a value on the boundary of two cases, and a difference that varies as much as its own size is the
// noise of cancelled digits; neither says anything about the code.
static bool rounding( void (*f)() )
{
    const std::vector< double > in( drawn ); const bool numeric = !truth;
    watch = first_fail;
    int bad = 0, good = 0; double lo = error, hi = error;
    script = &in;
    for( int k = 0; k < 16; ++k )
    {
        pos = 0; failures = 0; seen = false; error = 0;
        if( run( f ) == 3 ) continue;
        if( seen ) ++bad; else ++good;
        lo = std::min( lo, error ); hi = std::max( hi, error );
    }
    script = 0; first_fail = watch;
    return good > bad || ( numeric && hi - lo > 0.5 * std::max( std::fabs( lo ), std::fabs( hi ) ) );
}

int main( int argc, char** argv )
{
    if( argc < 3 ) { for( auto& x : table() ) puts( x.first.c_str() ); return 2; }
    auto it = table().find( argv[ 1 ] );
    if( it == table().end() ) { fprintf( stderr, "no contract %s\n", argv[ 1 ] ); return 2; }
    if( std::string( argv[ 2 ] ) == "random" )
    {
        long n = argc > 3 ? atol( argv[ 3 ] ) : 1000;
        if( argc > 4 ) { rng ^= strtoull( argv[ 4 ], 0, 10 ) * 2654435761ULL; if( !rng ) rng = 1; }
        random_mode = quiet = true;
        long ran = 0, near = 0;
        for( long i = 0; i < n; ++i )
        {
            drawn.clear(); failures = 0; regime = rnd() % 4;
            int r = run( it->second );
            if( r == 0 ) ++ran;
            if( r == 1 && rounding( it->second ) ) { ++near; failures = 0; continue; }
            if( r == 1 )
            {
                printf( "FAILED %s\ninput:", first_fail.c_str() );
                for( double d : drawn ) printf( " %.17g", d );
                printf( "\n" );
                return 1;
            }
        }
        printf( "held on %ld of %ld inputs", ran, n );
        if( near ) printf( " (%ld disagreements of rounding at case boundaries)", near );
        printf( "\n" );
        return 0;
    }
    if( std::string( argv[ 2 ] ) == "replay-fine" ) tol_d = 1e-9;
    for( int i = 3; i < argc; ++i ) input.push_back( strtod( argv[ i ], 0 ) );
    int r = run( it->second );
    while( r == 0 && pos && pos < input.size() ) r = run( it->second );   // state kept between calls: the inputs of the next call follow
    puts( r == 0 ? "held" : r == 1 ? "violated" : "precondition not met" );
    fflush( stdout );
    return r;
}

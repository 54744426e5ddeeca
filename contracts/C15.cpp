// C15: quantising and dequantising is monotone and loses at most half a step
#include "vc.h"
#include <vmmlib/vector.hpp>
#include <vmmlib/matrix.hpp>
using namespace vmml;

// code c of a value x in [lo,hi]: |c - (x-lo) R/(hi-lo)| <= 1/2, ends to ends
template< class T, class TT > void check_code( TT c, T x, T lo, T hi )
{
    const T top = T( std::numeric_limits< TT >::max() ), d = T( c ) * ( hi - lo ) - ( x - lo ) * top;
    if( vc_random() ) { const T h = ( hi - lo ) * T( 0.51 ); ENSURES( d <= h ); ENSURES( -d <= h ); return; }
    ENSURES( 2 * d <= hi - lo ); ENSURES( -2 * d <= hi - lo );
    if( x == lo ) ENSURES( c == TT( 0 ) );
    if( x == hi ) ENSURES( c == std::numeric_limits< TT >::max() );
}
template< size_t M, size_t N, class T, class TT > void codes()
{
    Matrix< M, N, T > a; Matrix< M, N, TT > q; vc::sym( a ); vc::sym( q ); const T lo = vc::any< T >(), hi = vc::any< T >(); REQUIRES( lo < hi );
    for( auto& x : a.array ) { if( vc_random() ) x = x < lo ? lo : x > hi ? hi : x; REQUIRES( x >= lo ); REQUIRES( x <= hi ); }
    auto o = vc::save( a ); const Matrix< M, N, T >& ca = a; T l = lo, h = hi;
    ca.quantize_to( q, l, h );
    for( size_t i = 0; i < M * N; ++i ) check_code( q.array[ i ], o[ i ], lo, hi );
    ENSURES( l == lo ); ENSURES( h == hi ); UNCHANGED( a, o );
}
// order is kept, also for values outside the given range, which get the nearest end code
template< size_t M, size_t N, class T, class TT > void ordered()
{
    Matrix< M, N, T > a; Matrix< M, N, TT > q; vc::sym( a ); vc::sym( q ); const T lo = vc::any< T >(), hi = vc::any< T >(); REQUIRES( lo < hi );
    const T top = T( std::numeric_limits< TT >::max() );
    for( size_t k = 0; k < M * N; ++k )   // the scaled value fits the intermediate integer type
    { REQUIRES( ( a.array[ k ] - lo ) * top <= T( 1e15 ) * ( hi - lo ) ); REQUIRES( ( a.array[ k ] - lo ) * top >= T( -1e15 ) * ( hi - lo ) ); }
    a.quantize_to( q, lo, hi );
    for( size_t i = 0; i < M * N; ++i )
    {
        const T x = a.array[ i ]; const TT c = q.array[ i ];
        for( size_t j = 0; j < M * N; ++j ) if( j != i && x <= a.array[ j ] ) ENSURES( c <= q.array[ j ] );
        if( x <= lo ) ENSURES( c == TT( 0 ) );
        if( x >= hi ) ENSURES( c == std::numeric_limits< TT >::max() );
    }
    vc_cover( "ordered" );
}
template< size_t M, size_t N, class T, class TT > void ranges()
{
    Matrix< M, N, T > a; Matrix< M, N, TT > q; for( auto& x : a.array ) { x = vc::any< T >(); REQUIRES( x <= std::numeric_limits< T >::max() ); REQUIRES( x >= std::numeric_limits< T >::lowest() ); }
    vc::sym( q );
    bool constant = true; for( size_t i = 0; i < M * N; ++i ) constant = constant && a.array[ i ] == a.array[ 0 ];
    REQUIRES( !constant );
    auto o = vc::save( a ); const Matrix< M, N, T >& ca = a; T lo = vc::any< T >(), hi = vc::any< T >();
    ca.quantize( q, lo, hi );
    bool al = false, ah = false;
    for( size_t i = 0; i < M * N; ++i ) { ENSURES( lo <= o[ i ] ); ENSURES( hi >= o[ i ] ); al = al || lo == o[ i ]; ah = ah || hi == o[ i ]; }
    ENSURES( al ); ENSURES( ah ); ENSURES( lo < hi );
    UNCHANGED( a, o );
    // and the codes are those of quantize_to for that range (whose contract is `codes`)
    Matrix< M, N, TT > p; vc::sym( p ); ca.quantize_to( p, lo, hi );
    for( size_t i = 0; i < M * N; ++i ) ENSURES( q.array[ i ] == p.array[ i ] );
}
template< size_t M, size_t N, class T, class TT > void values()
{
    Matrix< M, N, TT > q; Matrix< M, N, T > b; vc::sym( q ); vc::sym( b ); const T lo = vc::any< T >(), hi = vc::any< T >(); REQUIRES( lo < hi );
    auto o = vc::save( q ); const Matrix< M, N, TT >& cq = q; T l = lo, h = hi; const T top = T( std::numeric_limits< TT >::max() );
    cq.dequantize( b, l, h );
    for( size_t i = 0; i < M * N; ++i )
    {
        ENSURES_EQ( b.array[ i ] * top, lo * top + T( o[ i ] ) * ( hi - lo ) );
        if( vc_random() ) continue;
        ENSURES( b.array[ i ] >= lo ); ENSURES( b.array[ i ] <= hi );
        if( o[ i ] == TT( 0 ) ) ENSURES( b.array[ i ] == lo );
        if( o[ i ] == std::numeric_limits< TT >::max() ) ENSURES( b.array[ i ] == hi );
    }
    ENSURES( l == lo ); ENSURES( h == hi ); UNCHANGED( q, o );
}
template< size_t M, size_t N, class T, class TT > void round_trip()
{
    Matrix< M, N, T > a, b; Matrix< M, N, TT > q; vc::sym( a ); vc::sym( b ); vc::sym( q ); const T lo = vc::any< T >(), hi = vc::any< T >(); REQUIRES( lo < hi );
    for( auto& x : a.array ) { if( vc_random() ) x = x < lo ? lo : x > hi ? hi : x; REQUIRES( x >= lo ); REQUIRES( x <= hi ); }
    a.quantize_to( q, lo, hi ); q.dequantize( b, lo, hi );
    const T top = T( std::numeric_limits< TT >::max() );
    for( size_t i = 0; i < M * N; ++i )
    {
        const T d = ( b.array[ i ] - a.array[ i ] ) * 2 * top, s = vc_random() ? ( hi - lo ) * T( 1.02 ) : hi - lo;
        ENSURES( d <= s ); ENSURES( -d <= s );
    }
}
#define Q( n, f, M, N ) PROVE( n##M##N##_fb, f< M, N, float, uint8_t > ) PROVE( n##M##N##_db, f< M, N, double, uint8_t > ) \
                        PROVE( n##M##N##_fw, f< M, N, float, uint16_t > ) PROVE( n##M##N##_dw, f< M, N, double, uint16_t > ) PROVE( n##M##N##_dd, f< M, N, double, uint32_t > )
#define S( M, N ) Q( code, codes, M, N ) Q( range, ranges, M, N ) Q( value, values, M, N ) Q( round_trip, round_trip, M, N )
S( 1, 2 ) S( 2, 2 ) S( 2, 3 ) S( 3, 2 ) S( 3, 3 ) S( 1, 5 ) S( 4, 4 ) S( 5, 3 )
Q( order, ordered, 1, 2 ) Q( order, ordered, 2, 2 ) Q( order, ordered, 3, 2 )

static void canary() { Matrix< 1, 2, double > a; Matrix< 1, 2, uint8_t > q; vc::sym( a ); for( auto& x : a.array ) { REQUIRES( x >= 0 ); REQUIRES( x <= 1 ); } a.quantize_to( q, 0., 1. ); ENSURES( a.array[ 0 ] >= a.array[ 1 ] || q.array[ 0 ] < q.array[ 1 ] ); }
REFUTE( strictly_monotone, canary )
static void canary2() { Matrix< 1, 1, float > a, b; Matrix< 1, 1, uint8_t > q; vc::sym( a ); for( auto& x : a.array ) { REQUIRES( x >= 0 ); REQUIRES( x <= 1 ); } a.quantize_to( q, 0.f, 1.f ); q.dequantize( b, 0.f, 1.f ); ENSURES_EQ( a.array[ 0 ], b.array[ 0 ] ); }
REFUTE( lossless, canary2 )

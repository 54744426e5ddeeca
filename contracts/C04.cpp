// C04: vector arithmetic is elementwise and leaves its operands alone
// VC-CONFIG-QUICK: release=-DNDEBUG
#include "vc.h"
#include <vmmlib/vector.hpp>
#include <vmmlib/matrix.hpp>
using namespace vmml;
template< class T > struct isint { static const bool value = std::numeric_limits< T >::is_integer; };
#define ALL( v, X ) for( size_t i = 0; i < M; ++i ) ENSURES_EQ( ( v ).array[ i ], T( X ) );
// divisor for which the quotient is defined
template< class T > bool divisible( T a, T b ) { return b != T( 0 ) && !( isint< T >::value && std::numeric_limits< T >::is_signed && b == T( -1 ) && a == std::numeric_limits< T >::min() ); }

template< size_t M, class T > void add_sub_mul()
{
    Vector< M, T > a, b; vc::sym( a ); vc::sym( b ); auto oa = vc::save( a ), ob = vc::save( b ); const T s = vc::any< T >();
    const Vector< M, T > &ca = a, &cb = b;
    { Vector< M, T > r = ca + cb; ALL( r, oa[ i ] + ob[ i ] ) }
    { Vector< M, T > r = ca - cb; ALL( r, oa[ i ] - ob[ i ] ) }
    { Vector< M, T > r = ca * cb; ALL( r, oa[ i ] * ob[ i ] ) }
    { Vector< M, T > r = ca + s; ALL( r, oa[ i ] + s ) }
    { Vector< M, T > r = ca - s; ALL( r, oa[ i ] - s ) }
    { Vector< M, T > r = ca * s; ALL( r, oa[ i ] * s ) }
    { Vector< M, T > r = s * ca; ALL( r, oa[ i ] * s ) }
    { Vector< M, T > r = -ca; ALL( r, -oa[ i ] ) }
    { Vector< M, T > r = ca + ca; ALL( r, oa[ i ] + oa[ i ] ) }
    { Vector< M, T > r = ca - ca; ALL( r, 0 ) }
    UNCHANGED( a, oa ); UNCHANGED( b, ob );
    a += b; ALL( a, oa[ i ] + ob[ i ] ) UNCHANGED( b, ob );
    for( size_t i = 0; i < M; ++i ) a.array[ i ] = oa[ i ];
    a -= b; ALL( a, oa[ i ] - ob[ i ] ) UNCHANGED( b, ob );
    for( size_t i = 0; i < M; ++i ) a.array[ i ] = oa[ i ];
    a *= b; ALL( a, oa[ i ] * ob[ i ] ) UNCHANGED( b, ob );
    for( size_t i = 0; i < M; ++i ) a.array[ i ] = oa[ i ];
    a += s; ALL( a, oa[ i ] + s )
    for( size_t i = 0; i < M; ++i ) a.array[ i ] = oa[ i ];
    a -= s; ALL( a, oa[ i ] - s )
    for( size_t i = 0; i < M; ++i ) a.array[ i ] = oa[ i ];
    a *= s; ALL( a, oa[ i ] * s )
    for( size_t i = 0; i < M; ++i ) a.array[ i ] = oa[ i ];
    const Vector< M, T >& r = a.negate(); ENSURES( &r == &a ); ALL( a, -oa[ i ] )
}
// in place with itself, or with one of its own components
template< size_t M, class T > void aliased()
{
    Vector< M, T > a; vc::sym( a ); auto o = vc::save( a );
#define RESET for( size_t i = 0; i < M; ++i ) a.array[ i ] = o[ i ];
    a += a; ALL( a, o[ i ] + o[ i ] ) RESET
    a -= a; ALL( a, 0 ) RESET
    a *= a; ALL( a, o[ i ] * o[ i ] ) RESET
    a += a.array[ 0 ]; ALL( a, o[ i ] + o[ 0 ] ) RESET
    a -= a.array[ 0 ]; ALL( a, o[ i ] - o[ 0 ] ) RESET
    a *= a.array[ 0 ]; ALL( a, o[ i ] * o[ 0 ] ) RESET
    a = a + a; ALL( a, o[ i ] + o[ i ] ) RESET
    a = a * a; ALL( a, o[ i ] * o[ i ] ) RESET
    a = -a; ALL( a, -o[ i ] ) RESET
    for( size_t i = 0; i < M; ++i ) REQUIRES( divisible( o[ i ], o[ i ] ) && divisible( o[ i ], o[ 0 ] ) );
    a /= a; ALL( a, 1 ) RESET
    a /= a.array[ 0 ]; ALL( a, o[ i ] / o[ 0 ] ) RESET
    a = a / a; ALL( a, 1 )
}
template< size_t M, class T > void divide()
{
    Vector< M, T > a, b; vc::sym( a ); vc::sym( b ); auto oa = vc::save( a ), ob = vc::save( b ); const T s = vc::any< T >();
    for( size_t i = 0; i < M; ++i ) REQUIRES( divisible( oa[ i ], ob[ i ] ) && divisible( oa[ i ], s ) );
    const Vector< M, T > &ca = a, &cb = b;
    { Vector< M, T > r = ca / cb; ALL( r, oa[ i ] / ob[ i ] ) }
    { Vector< M, T > r = ca / s; ALL( r, oa[ i ] / s ) }
    UNCHANGED( a, oa ); UNCHANGED( b, ob );
    a /= b; ALL( a, oa[ i ] / ob[ i ] ) UNCHANGED( b, ob );
    for( size_t i = 0; i < M; ++i ) a.array[ i ] = oa[ i ];
    a /= s; ALL( a, oa[ i ] / s )
}
template< size_t M, class T > void roots()
{
    Vector< M, T > a; vc::sym( a ); auto o = vc::save( a );
    for( size_t i = 0; i < M; ++i ) REQUIRES( o[ i ] > T( 0 ) );
    a.sqrt_elementwise();
    for( size_t i = 0; i < M; ++i ) { ENSURES_EQ( a.array[ i ] * a.array[ i ], o[ i ] ); ENSURES( a.array[ i ] >= T( 0 ) ); }
}
template< size_t M, class T > void recip()
{
    Vector< M, T > a; vc::sym( a ); auto o = vc::save( a );
    for( size_t i = 0; i < M; ++i ) REQUIRES( o[ i ] != T( 0 ) );
    a.reciprocal();
    for( size_t i = 0; i < M; ++i ) ENSURES_EQ( a.array[ i ] * o[ i ], T( 1 ) );
}
template< size_t M, class T > void prod()
{
    Vector< M, T > a; vc::sym( a ); auto o = vc::save( a ); const Vector< M, T >& c = a;
    T p = 1; for( size_t i = M; i-- > 0; ) p = T( p * o[ i ] );
    ENSURES_EQ( c.product(), p );
    UNCHANGED( a, o );
}
#define V( M ) PROVE_ALL( arith##M, add_sub_mul, M ) PROVE_ALL( aliased##M, aliased, M ) PROVE_FD( divide##M, divide, M ) PROVE_FD( roots##M, roots, M ) PROVE_FD( recip##M, recip, M )
V( 1 ) V( 2 ) V( 3 ) V( 4 ) V( 5 ) V( 6 ) V( 7 ) V( 8 ) V( 9 ) V( 12 ) V( 16 ) V( 17 ) V( 33 )
#define DI( M ) PROVE_I( divide##M, divide, M ) PROVE_ALL( prod##M, prod, M )
DI( 1 ) DI( 2 ) DI( 3 ) DI( 4 ) DI( 5 ) DI( 8 ) DI( 9 ) 
#define VT( M ) PROVE_T_ALL( arith##M, add_sub_mul, M ) PROVE_T_ALL( aliased##M, aliased, M ) PROVE_T_FD( divide##M, divide, M )
VT( 24 )
static void canary() { typedef int T; const size_t M = 3; Vector< 3, int > a, b; vc::sym( a ); vc::sym( b ); Vector< 3, int > r = a - b; ALL( r, b.array[ i ] - a.array[ i ] ) }
REFUTE( swapped_difference, canary )
static void canary2() { typedef uint8_t T; const size_t M = 3; Vector< 3, T > a, b; vc::sym( a ); vc::sym( b ); Vector< 3, T > r = a + b; for( size_t i = 0; i < M; ++i ) ENSURES( r.array[ i ] >= a.array[ i ] ); }
REFUTE( no_wrap, canary2 )

// C11: a matrix reported invertible is really inverted; a singular one is refused
// VC-CONFIG-QUICK: release=-DNDEBUG
#include "vc.h"
#include <vmmlib/vector.hpp>
#include <vmmlib/matrix.hpp>
using namespace vmml;
#define E( a, R, r, c ) ( a )[ ( r ) + ( R ) * ( c ) ]
#define EACH( M, N ) for( size_t r = 0; r < M; ++r ) for( size_t c = 0; c < N; ++c )

template< class T, class A > T det( const A& a, const size_t (&r)[ 2 ], const size_t (&c)[ 2 ], size_t M ) { return a[ r[ 0 ] + M * c[ 0 ] ] * a[ r[ 1 ] + M * c[ 1 ] ] - a[ r[ 0 ] + M * c[ 1 ] ] * a[ r[ 1 ] + M * c[ 0 ] ]; }
template< class T, class A > T det( const A& a, const size_t (&r)[ 1 ], const size_t (&c)[ 1 ], size_t M ) { return a[ r[ 0 ] + M * c[ 0 ] ]; }
// Laplace expansion along the first of the rows r
template< class T, class A, size_t K > T det( const A& a, const size_t (&r)[ K ], const size_t (&c)[ K ], size_t M )
{
    T s = 0; size_t q[ K - 1 ], d[ K - 1 ];
    for( size_t i = 1; i < K; ++i ) q[ i - 1 ] = r[ i ];
    for( size_t j = 0; j < K; ++j )
    {
        for( size_t i = 0, k = 0; i < K; ++i ) if( i != j ) d[ k++ ] = c[ i ];
        const T t = a[ r[ 0 ] + M * c[ j ] ] * det< T >( a, q, d, M );
        s = j % 2 ? s - t : s + t;
    }
    return s;
}
template< size_t M, class T, class A > T determinant( const A& a ) { size_t i[ M ]; for( size_t k = 0; k < M; ++k ) i[ k ] = k; return det< T >( a, i, i, M ); }

template< size_t M, class T > void inverses()
{
    Matrix< M, M, T > a, n; vc::sym( a ); vc::sym( n ); auto oa = vc::save( a ); const Matrix< M, M, T >& ca = a;
    const T tol = vc::any< T >(); REQUIRES( tol >= T( 0 ) );
    const T d = determinant< M, T >( oa ), abs = d < T( 0 ) ? -d : d;
    const bool ok = ca.inverse( n, tol );
    UNCHANGED( a, oa );
    ENSURES( ok == ( abs > tol ) );
    if( !ok ) return;
    EACH( M, M )
    {
        T l = 0, q = 0; for( size_t k = 0; k < M; ++k ) { l += E( n.array, M, r, k ) * E( oa, M, k, c ); q += E( oa, M, r, k ) * E( n.array, M, k, c ); }
        ENSURES_EQ( l, T( r == c ) ); ENSURES_EQ( q, T( r == c ) );
    }
    UNCHANGED( a, oa );
}
// the free function, the member function and the default tolerance agree
template< size_t M, class T > void defaults()
{
    Matrix< M, M, T > a, n, m, k; vc::sym( a ); auto oa = vc::save( a ); const Matrix< M, M, T >& ca = a;
    const T e = std::numeric_limits< T >::epsilon();
    const bool x = ca.inverse( n ), y = vmml::compute_inverse( ca, m ), z = ca.inverse( k, e );
    const T d = determinant< M, T >( oa );
    ENSURES( x == z ); ENSURES( y == z ); ENSURES( x == ( d > e || d < -e ) );
    if( z ) for( size_t i = 0; i < M * M; ++i ) { ENSURES_EQ( n.array[ i ], k.array[ i ] ); ENSURES_EQ( m.array[ i ], k.array[ i ] ); }
    UNCHANGED( a, oa );
}
// a matrix with dependent columns is refused whatever the tolerance
template< size_t M, class T > void singular()
{
    Matrix< M, M, T > a, n; vc::sym( a ); const size_t j = vc_size( 0, M - 1 ); const T tol = vc::any< T >(); REQUIRES( tol >= T( 0 ) );
    T w[ M ]; vc::sym( w );
    for( size_t r = 0; r < M; ++r )
    {
        T s = 0; for( size_t c = 0; c < M; ++c ) if( c != j ) s += w[ c ] * E( a.array, M, r, c );
        for( size_t c = 0; c < M; ++c ) if( c == j ) E( a.array, M, r, c ) = s;
    }
    if( vc_random() ) { bool small = tol < T( 1 ); for( size_t i = 0; i < M * M; ++i ) { const T x = a.array[ i ]; small = small && x == std::floor( x ) && x < T( 100 ) && x > T( -100 ); } REQUIRES( small ); }   // exact in floating point
    ENSURES( !a.inverse( n, tol ) );
}
// inverting twice restores the matrix
template< size_t M, class T > void twice()
{
    Matrix< M, M, T > a, n, b; vc::sym( a ); auto oa = vc::save( a );
    const bool x = a.inverse( n, T( 0 ) );
    if( !x ) return;
    const bool y = n.inverse( b, T( 0 ) );
    ENSURES( y );
    for( size_t i = 0; i < M * M; ++i ) ENSURES_EQ( b.array[ i ], oa[ i ] );
}
#define I( M ) PROVE_FD( inverse##M, inverses, M ) PROVE_FD( defaults##M, defaults, M ) PROVE_FD( singular##M, singular, M )
I( 2 ) I( 3 ) I( 4 )
PROVE_FD( twice2, twice, 2 ) PROVE_FD( twice3, twice, 3 )
static void canary() { Matrix< 2, 2, double > a, n; vc::sym( a ); ENSURES( a.inverse( n ) ); }
REFUTE( always_invertible, canary )
static void canary2() { Matrix< 3, 3, float > a, n; vc::sym( a ); REQUIRES( a.array[ 0 ] != 0 ); if( a.inverse( n ) ) ENSURES_EQ( n.array[ 0 ] * a.array[ 0 ], 1.f ); }
REFUTE( elementwise_inverse, canary2 )

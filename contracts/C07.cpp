// C07: matrix addition, scaling, negation and comparison are elementwise
// VC-CONFIG-QUICK: release=-DNDEBUG
#include "vc.h"
#include <vmmlib/vector.hpp>
#include <vmmlib/matrix.hpp>
#include <vmmlib/matrix_functors.hpp>
using namespace vmml;
template< class T > struct isint { static const bool value = std::numeric_limits< T >::is_integer; };
#define ALL( m, X ) for( size_t i = 0; i < M * N; ++i ) ENSURES_EQ( ( m ).array[ i ], T( X ) );
#define RESET for( size_t i = 0; i < M * N; ++i ) a.array[ i ] = oa[ i ];
template< class T > bool divisible( T a, T b ) { return b != T( 0 ) && !( isint< T >::value && std::numeric_limits< T >::is_signed && b == T( -1 ) && a == std::numeric_limits< T >::min() ); }
template< class T > inline T absd( T a, T b ) { return a < b ? T( b - a ) : T( a - b ); }

template< size_t M, size_t N, class T > void arith()
{
    typedef Matrix< M, N, T > Mat;
    Mat a, b; vc::sym( a ); vc::sym( b ); auto oa = vc::save( a ), ob = vc::save( b ); const T s = vc::any< T >(); const Mat &ca = a, &cb = b;
    { Mat r = ca + cb; ALL( r, oa[ i ] + ob[ i ] ) }
    { Mat r = ca - cb; ALL( r, oa[ i ] - ob[ i ] ) }
    { Mat r = a * s; ALL( r, oa[ i ] * s ) }
    { Mat r = -ca; ALL( r, -oa[ i ] ) }
    { Mat r = ca.negate(); ALL( r, -oa[ i ] ) }
    { Mat r = ca + ca; ALL( r, oa[ i ] + oa[ i ] ) }
    { Mat r = ca - ca; ALL( r, 0 ) }
    UNCHANGED( a, oa ); UNCHANGED( b, ob );
    a += b; ALL( a, oa[ i ] + ob[ i ] ) UNCHANGED( b, ob ); RESET
    a -= b; ALL( a, oa[ i ] - ob[ i ] ) UNCHANGED( b, ob ); RESET
    a += s; ALL( a, oa[ i ] + s ) RESET
    a -= s; ALL( a, oa[ i ] - s ) RESET
    a *= s; ALL( a, oa[ i ] * s ) RESET
    a.multiply_piecewise( b ); ALL( a, oa[ i ] * ob[ i ] ) UNCHANGED( b, ob );
}
template< size_t M, size_t N, class T > void aliased()
{
    typedef Matrix< M, N, T > Mat;
    Mat a; vc::sym( a ); auto oa = vc::save( a );
    a += a; ALL( a, oa[ i ] + oa[ i ] ) RESET
    a -= a; ALL( a, 0 ) RESET
    a.multiply_piecewise( a ); ALL( a, oa[ i ] * oa[ i ] ) RESET
    a += a.array[ 0 ]; ALL( a, oa[ i ] + oa[ 0 ] ) RESET
    a -= a.array[ 0 ]; ALL( a, oa[ i ] - oa[ 0 ] ) RESET
    a *= a.array[ 0 ]; ALL( a, oa[ i ] * oa[ 0 ] ) RESET
    a = a + a; ALL( a, oa[ i ] + oa[ i ] ) RESET
    a = -a; ALL( a, -oa[ i ] ) RESET
    a = a * a.array[ M * N - 1 ]; ALL( a, oa[ i ] * oa[ M * N - 1 ] ) RESET
    a *= a.array[ M * N - 1 ]; ALL( a, oa[ i ] * oa[ M * N - 1 ] )
}
template< size_t M, size_t N, class T > void divide()
{
    typedef Matrix< M, N, T > Mat;
    Mat a; vc::sym( a ); auto oa = vc::save( a ); const T s = vc::any< T >();
    for( size_t i = 0; i < M * N; ++i ) REQUIRES( divisible( oa[ i ], s ) );
    { Mat r = a / s; ALL( r, oa[ i ] / s ) }
    if( oa[ 0 ] != T( 0 ) )
    {
        bool fine = true; for( size_t i = 0; i < M * N; ++i ) fine = fine && divisible( oa[ i ], oa[ 0 ] );
        if( fine ) { Mat r( a ); r /= r.array[ 0 ]; ALL( r, oa[ i ] / oa[ 0 ] ) r = a; r = r / r.array[ 0 ]; ALL( r, oa[ i ] / oa[ 0 ] ) }
    }
    UNCHANGED( a, oa );
    a /= s; ALL( a, oa[ i ] / s ) RESET
    for( size_t i = 0; i < M * N; ++i ) REQUIRES( divisible( oa[ i ], oa[ M * N - 1 ] ) );
    a /= a.array[ M * N - 1 ]; ALL( a, oa[ i ] / oa[ M * N - 1 ] )
}
template< size_t M, size_t N, class T > void equality()
{
    Matrix< M, N, T > a, b; vc::sym( a ); vc::sym( b ); auto oa = vc::save( a ), ob = vc::save( b ); const Matrix< M, N, T > &ca = a, &cb = b;
    bool same = true; for( size_t i = 0; i < M * N; ++i ) same = same && oa[ i ] == ob[ i ];
    ENSURES( ( ca == cb ) == same ); ENSURES( ( ca != cb ) == !same ); ENSURES( ( cb == ca ) == same ); ENSURES( ca == ca ); ENSURES( !( ca != ca ) );
    UNCHANGED( a, oa ); UNCHANGED( b, ob );
    if( same ) vc_cover( "equal" ); else vc_cover( "different" );
}
template< size_t M, size_t N, class T > void one_difference()
{
    Matrix< M, N, T > a; vc::sym( a ); Matrix< M, N, T > b( a ); const size_t k = vc_size( 0, M * N - 1 ); const T v = vc::any< T >();
    ENSURES( a == b );
    REQUIRES( v != a.array[ k ] );
    b.array[ k ] = v;
    ENSURES( a != b ); ENSURES( !( a == b ) );
}
template< class T > struct less_or_equal { bool operator()( const T& a, const T& b ) { return a <= b; } };
template< size_t M, size_t N, class T > void tolerant()
{
    Matrix< M, N, T > a, b; vc::sym_tame( a ); vc::sym_tame( b ); auto oa = vc::save( a ), ob = vc::save( b ); const Matrix< M, N, T > &ca = a, &cb = b; const T tol = vc::any< T >();
    bool close = true, dflt = true, le = true;
    for( size_t i = 0; i < M * N; ++i )
    {
        close = close && absd( oa[ i ], ob[ i ] ) < tol; dflt = dflt && absd( oa[ i ], ob[ i ] ) < std::numeric_limits< T >::epsilon();
        le = le && oa[ i ] <= ob[ i ];
    }
    ENSURES( ca.equals( cb, tol ) == close ); ENSURES( cb.equals( ca, tol ) == close ); ENSURES( ca.equals( ca, tol ) == ( tol > T( 0 ) ) );
    ENSURES( ( vmml::equals< M, N, T >( a, b, tol ) ) == close );
    ENSURES( ( vmml::equals< M, N, T >( a, b ) ) == dflt );
    less_or_equal< T > f;
    ENSURES( ca.equals( cb, f ) == le );
    UNCHANGED( a, oa ); UNCHANGED( b, ob );
    if( close ) vc_cover( "close" ); else vc_cover( "apart" );
}
// equal up to the sign of whole rows / columns
template< size_t M, size_t N, class T > void inverted()
{
    typedef Matrix< M, N, T > Mat;
    Mat a, b; vc::sym_tame( a ); vc::sym_tame( b ); auto oa = vc::save( a ), ob = vc::save( b ); const T tol = vc::any< T >();
    bool rows = true, rowst = true, cols = true, colst = true;
    for( size_t r = 0; r < M; ++r )
    {
        bool p = true, n = true, pt = true, nt = true;
        for( size_t c = 0; c < N; ++c )
        {
            const T x = oa[ r + M * c ], y = ob[ r + M * c ];
            p = p && x == y; n = n && x == -y; pt = pt && absd( x, y ) < tol; nt = nt && absd( x, T( -y ) ) < tol;
        }
        rows = rows && ( p || n ); rowst = rowst && ( pt || nt );
    }
    for( size_t c = 0; c < N; ++c )
    {
        bool p = true, n = true, pt = true, nt = true;
        for( size_t r = 0; r < M; ++r )
        {
            const T x = oa[ r + M * c ], y = ob[ r + M * c ];
            p = p && x == y; n = n && x == -y; pt = pt && absd( x, y ) < tol; nt = nt && absd( x, T( -y ) ) < tol;
        }
        cols = cols && ( p || n ); colst = colst && ( pt || nt );
    }
    matrix_equals_allow_inverted_rows< Mat > fr; matrix_equals_allow_inverted_columns< Mat > fc;
    ENSURES( fr( a, b ) == rows ); ENSURES( fr( a, b, tol ) == rowst );
    ENSURES( fc( a, b ) == cols ); ENSURES( fc( a, b, tol ) == colst );
    UNCHANGED( a, oa ); UNCHANGED( b, ob );
}
#define S( M, N ) PROVE_ALL( arith##M##N, arith, M, N ) PROVE_ALL( aliased##M##N, aliased, M, N ) PROVE_FD( divide##M##N, divide, M, N ) \
    PROVE_ALL( equality##M##N, equality, M, N ) PROVE_ALL( one_difference##M##N, one_difference, M, N ) PROVE_FD( tolerant##M##N, tolerant, M, N )
S( 1, 1 ) S( 1, 4 ) S( 4, 1 ) S( 2, 2 ) S( 2, 3 ) S( 3, 2 ) S( 3, 3 ) S( 3, 4 ) S( 4, 3 ) S( 4, 4 ) S( 2, 5 ) S( 5, 2 ) S( 5, 5 ) S( 1, 8 ) S( 6, 4 ) S( 7, 5 ) S( 3, 11 )
#define I( M, N ) PROVE_I( divide##M##N, divide, M, N ) PROVE_I( tolerant##M##N, tolerant, M, N )
I( 1, 1 ) I( 2, 2 ) I( 2, 3 ) I( 3, 2 )
#define V( M, N ) PROVE_FD( inverted##M##N, inverted, M, N ) PROVE( inverted##M##N##_i, inverted< M, N, int > )
V( 2, 2 ) V( 2, 3 ) V( 3, 2 ) V( 1, 3 )
#define L( M, N ) PROVE_T_ALL( arith##M##N, arith, M, N ) PROVE_T_ALL( aliased##M##N, aliased, M, N ) PROVE_T_FD( divide##M##N, divide, M, N ) \
    PROVE_T_ALL( equality##M##N, equality, M, N ) PROVE_T_ALL( one_difference##M##N, one_difference, M, N )
L( 6, 6 ) L( 3, 8 )
PROVE_T( inverted33_f, inverted< 3, 3, float > ) PROVE_T( inverted33_d, inverted< 3, 3, double > )

static void canary() { typedef float T; const size_t M = 3, N = 2; Matrix< M, N, T > a, b; vc::sym( a ); vc::sym( b ); Matrix< M, N, T > r = a - b; ALL( r, a.array[ i ] + b.array[ i ] ) }
REFUTE( sum_for_difference, canary )
static void canary2() { Matrix< 2, 2, int > a, b; vc::sym( a ); vc::sym( b ); REQUIRES( a.array[ 1 ] == b.array[ 1 ] ); ENSURES( ( a == b ) == ( a.array[ 0 ] == b.array[ 0 ] && a.array[ 3 ] == b.array[ 3 ] ) ); }
REFUTE( equality_partial, canary2 )

// C14: matrix reductions consider every element exactly once
#include "vc.h"
#include <vmmlib/vector.hpp>
#include <vmmlib/matrix.hpp>
using namespace vmml;
#define E( a, R, r, c ) ( a )[ ( r ) + ( R ) * ( c ) ]

template< class T > T finite() { const T x = vc::any< T >(); REQUIRES( x <= std::numeric_limits< T >::max() ); REQUIRES( x >= std::numeric_limits< T >::lowest() ); return x; }
template< class T > T mag( T x ) { return x < T( 0 ) ? T( -x ) : x; }

template< size_t M, size_t N, class T > void extremes()
{
    Matrix< M, N, T > a; for( auto& x : a.array ) x = finite< T >(); auto o = vc::save( a ); const Matrix< M, N, T >& ca = a;
    const T lo = ca.get_min(), hi = ca.get_max();
    bool al = false, ah = false;
    for( size_t i = 0; i < M * N; ++i ) { ENSURES( lo <= o[ i ] ); ENSURES( hi >= o[ i ] ); al = al || lo == o[ i ]; ah = ah || hi == o[ i ]; }
    ENSURES( al ); ENSURES( ah );
    UNCHANGED( a, o );
    if( hi < T( 1 ) ) vc_cover( "no positive element" ); if( lo > T( 0 ) ) vc_cover( "all positive" );
}
template< size_t M, size_t N, class T > void abs_extremes()
{
    Matrix< M, N, T > a; for( auto& x : a.array ) { x = vc::tame< T >(); REQUIRES( x <= std::numeric_limits< T >::max() ); REQUIRES( x >= std::numeric_limits< T >::lowest() ); }
    auto o = vc::save( a ); const Matrix< M, N, T >& ca = a;
    const T lo = ca.get_abs_min(), hi = ca.get_abs_max();
    bool al = false, ah = false;
    for( size_t i = 0; i < M * N; ++i ) { ENSURES( lo <= mag( o[ i ] ) ); ENSURES( hi >= mag( o[ i ] ) ); al = al || lo == mag( o[ i ] ); ah = ah || hi == mag( o[ i ] ); }
    ENSURES( al ); ENSURES( ah );
    UNCHANGED( a, o );
}
template< size_t M, size_t N, class T > void counts()
{
    Matrix< M, N, T > a; vc::sym_tame( a ); auto o = vc::save( a ); const Matrix< M, N, T >& ca = a; const T t = vc::any< T >();
    size_t n = 0, k = 0; for( size_t i = 0; i < M * N; ++i ) { n += o[ i ] != T( 0 ); k += mag( o[ i ] ) > t; }
    ENSURES( ca.nnz() == n ); ENSURES( ca.nnz( t ) == k );
    UNCHANGED( a, o );
    a.threshold( t );
    for( size_t i = 0; i < M * N; ++i ) ENSURES( a.array[ i ] == ( mag( o[ i ] ) > t ? o[ i ] : T( 0 ) ) );
}
// values whose squares and sums of squares are representable
template< class T, bool I > struct small_ { static T get() { return vc::any< T >(); } };
template< class T > struct small_< T, true > { static T get() { return T( std::numeric_limits< T >::is_signed ? vc_int( sizeof( T ) > 1 ? -10000 : -127, sizeof( T ) > 1 ? 10000 : 127 ) : vc_int( 0, sizeof( T ) > 1 ? 10000 : 255 ) ); } };
template< class T > T small() { return small_< T, std::numeric_limits< T >::is_integer >::get(); }
template< size_t M, size_t N, class T > void norms()
{
    Matrix< M, N, T > a; for( auto& x : a.array ) x = small< T >(); auto o = vc::save( a ); const Matrix< M, N, T >& ca = a;
    double s = 0, q = 0, l = 0; for( size_t i = 0; i < M * N; ++i ) { s += double( o[ i ] ); q += double( o[ i ] ) * double( o[ i ] ); l += double( mag( o[ i ] ) ); }
    ENSURES_EQ( ca.sum_elements(), s );
    const double f = ca.frobenius_norm(), p2 = ca.p_norm( 2. ), p1 = ca.p_norm( 1. );
    ENSURES( f >= 0 ); ENSURES_EQ( f * f, q );
    ENSURES( p2 >= 0 ); ENSURES_EQ( p2 * p2, q );
    ENSURES_EQ( p1, l );
    UNCHANGED( a, o );
}
// general exponents: the p-th power of the norm is the sum of the p-th powers of the magnitudes
template< size_t M, size_t N, class T > void p_norms()
{
    Matrix< M, N, T > a; vc::sym_tame( a ); auto o = vc::save( a ); const Matrix< M, N, T >& ca = a; const double p = vc_f64(); REQUIRES( p >= 1. );
    double s = 0; for( size_t i = 0; i < M * N; ++i ) s += std::pow( double( mag( o[ i ] ) ), p );
    REQUIRES( !vc_random() || p < 20. );
    ENSURES_EQ( ca.p_norm( p ), std::pow( s, 1. / p ) );
    UNCHANGED( a, o );
}
template< size_t M, size_t N, class T > void column_sums()
{
    Matrix< M, N, T > a; vc::sym( a ); auto o = vc::save( a ); const Matrix< M, N, T >& ca = a; Vector< N, T > s; vc::sym( s );
    ca.columnwise_sum( s );
    for( size_t c = 0; c < N; ++c ) { T t = 0; for( size_t r = 0; r < M; ++r ) t = T( t + E( o, M, r, c ) ); ENSURES_EQ( s.array[ c ], t ); }
    UNCHANGED( a, o );
}
template< size_t M, size_t N, class T > void row_pairs()
{
    Matrix< M, N, T > a; vc::sym( a ); auto o = vc::save( a ); const Matrix< M, N, T >& ca = a; Matrix< M / 2, N, T > s; vc::sym( s );
    const int heap = vc_heap(); ca.sum_rows( s ); ENSURES( vc_heap() == heap );
    for( size_t r = 0; r < M / 2; ++r ) for( size_t c = 0; c < N; ++c ) ENSURES_EQ( E( s.array, M / 2, r, c ), T( E( o, M, 2 * r, c ) + E( o, M, 2 * r + 1, c ) ) );
    UNCHANGED( a, o );
}
template< size_t M, size_t N, class T > void column_pairs()
{
    Matrix< M, N, T > a; vc::sym( a ); auto o = vc::save( a ); const Matrix< M, N, T >& ca = a; Matrix< M, N / 2, T > s; vc::sym( s );
    const int heap = vc_heap(); ca.sum_columns( s ); ENSURES( vc_heap() == heap );
    for( size_t r = 0; r < M; ++r ) for( size_t c = 0; c < N / 2; ++c ) ENSURES_EQ( E( s.array, M, r, c ), T( E( o, M, r, 2 * c ) + E( o, M, r, 2 * c + 1 ) ) );
    UNCHANGED( a, o );
}
inline bool near( double a, double b, double tol ) { return a - b < tol && b - a < tol; }
// the cosine transform: documented coefficients; square ones are orthonormal.  The cosines are of constants: evaluated, hence a tolerance.
template< size_t M, size_t N, class T > void dct()
{
    Matrix< M, N, T > a; vc::sym( a );
    a.set_dct();
    for( size_t r = 0; r < M; ++r ) for( size_t c = 0; c < N; ++c )
        ENSURES( near( E( a.array, M, r, c ), std::sqrt( ( r ? 2. : 1. ) / M ) * std::cos( M_PI * r * ( 2. * c + 1. ) / ( 2. * M ) ), 1e-6 ) );
    if( M == N ) for( size_t i = 0; i < M; ++i ) for( size_t j = 0; j < M; ++j )
    {
        double s = 0, t = 0; for( size_t k = 0; k < N; ++k ) { s += double( E( a.array, M, i, k ) ) * double( E( a.array, M, j, k ) ); t += double( E( a.array, M, k % M, i % N ) ) * double( E( a.array, M, k % M, j % N ) ); }
        ENSURES( near( s, i == j, 1e-6 ) ); ENSURES( near( t, i == j, 1e-6 ) );
    }
}
#define S( M, N ) PROVE_ALL( extremes##M##N, extremes, M, N ) PROVE_FD( abs_extremes##M##N, abs_extremes, M, N ) PROVE_I( abs_extremes##M##N, abs_extremes, M, N ) \
    PROVE_ALL( counts##M##N, counts, M, N ) PROVE_ALL( norms##M##N, norms, M, N ) PROVE_FD( p_norm##M##N, p_norms, M, N ) PROVE( p_norm##M##N##_i, p_norms< M, N, int > ) \
    PROVE_ALL( column_sums##M##N, column_sums, M, N )
S( 1, 1 ) S( 1, 4 ) S( 4, 1 ) S( 2, 3 ) S( 3, 2 ) S( 2, 2 ) S( 3, 3 ) S( 4, 4 ) S( 5, 2 ) S( 2, 5 ) S( 3, 4 ) S( 4, 3 ) S( 1, 17 )
PROVE_ALL( norms75, norms, 7, 5 ) PROVE_ALL( column_sums75, column_sums, 7, 5 )
PROVE_ALL( norms55, norms, 5, 5 ) PROVE_ALL( column_sums55, column_sums, 5, 5 ) PROVE_ALL( norms36, norms, 3, 6 )
#define R( M, N ) PROVE_ALL( sum_rows##M##N, row_pairs, M, N )
#define C( M, N ) PROVE_ALL( sum_columns##M##N, column_pairs, M, N )
R( 2, 1 ) R( 2, 3 ) R( 3, 2 ) R( 4, 4 ) R( 5, 3 ) R( 6, 2 ) R( 7, 3 ) R( 8, 8 ) C( 1, 2 ) C( 3, 2 ) C( 2, 3 ) C( 4, 4 ) C( 3, 5 ) C( 2, 6 ) C( 3, 7 ) C( 8, 8 )
#define D( M, N ) PROVE_FD( dct##M##N, dct, M, N )
D( 1, 1 ) D( 2, 2 ) D( 3, 3 ) D( 4, 4 ) D( 5, 5 ) D( 8, 8 ) D( 2, 3 ) D( 4, 3 ) D( 6, 2 ) D( 7, 7 )
#define ST( M, N ) PROVE_T_ALL( extremes##M##N, extremes, M, N ) PROVE_T_FD( abs_extremes##M##N, abs_extremes, M, N ) PROVE_T_ALL( counts##M##N, counts, M, N ) PROVE_T_ALL( norms##M##N, norms, M, N ) PROVE_T_ALL( column_sums##M##N, column_sums, M, N )
ST( 1, 9 ) ST( 6, 3 )
PROVE_T_FD( dct16, dct, 16, 16 )

static void canary() { Matrix< 2, 3, int > a; vc::sym( a ); ENSURES( a.get_max() >= 0 ); }
REFUTE( max_non_negative, canary )
static void canary2() { Matrix< 3, 3, double > a; vc::sym( a ); ENSURES( a.p_norm( 2. ) <= a.p_norm( 1. ) - 1 ); }
REFUTE( norm_gap, canary2 )

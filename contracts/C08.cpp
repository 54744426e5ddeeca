// C08: matrix products equal their algebraic definitions for every shape
// VC-CONFIG-QUICK: release=-DNDEBUG
#include "vc.h"
#include <vmmlib/vector.hpp>
#include <vmmlib/matrix.hpp>
using namespace vmml;
// element (r,c) of a matrix with R rows, from the raw storage
#define E( a, R, r, c ) ( a )[ ( r ) + ( R ) * ( c ) ]

template< size_t M, size_t P, size_t N, class T > void products()
{
    Matrix< M, P, T > a; Matrix< P, N, T > b; Matrix< M, N, T > r; vc::sym( a ); vc::sym( b ); vc::sym( r );
    auto oa = vc::save( a ); auto ob = vc::save( b ); const Matrix< M, P, T >& ca = a; const Matrix< P, N, T >& cb = b;
    const Matrix< M, N, T > v = ca * cb;
    r.multiply( ca, cb );
    Matrix< M, N, T > f; vc::sym( f ); vmml::multiply< M, N, P, T >( ca, cb, f );
    for( size_t i = 0; i < M; ++i ) for( size_t j = 0; j < N; ++j )
    {
        T s = 0; for( size_t k = 0; k < P; ++k ) s = T( s + E( oa, M, i, k ) * E( ob, P, k, j ) );
        ENSURES_EQ( E( v.array, M, i, j ), s ); ENSURES_EQ( E( r.array, M, i, j ), s ); ENSURES_EQ( E( f.array, M, i, j ), s );
    }
    UNCHANGED( a, oa ); UNCHANGED( b, ob );
}
template< size_t M, class T > void in_place()
{
    Matrix< M, M, T > a, b, i1; vc::sym( a ); vc::sym( b ); auto oa = vc::save( a ), ob = vc::save( b );
    Matrix< M, M, T > c( a ); c *= b;
    Matrix< M, M, T > d( a ); d *= d;
    Matrix< M, M, T > e( a ); e = e * b;
    Matrix< M, M, T > g( b ); g = a * g;
    for( size_t i = 0; i < M; ++i ) for( size_t j = 0; j < M; ++j )
    {
        T s = 0, q = 0; for( size_t k = 0; k < M; ++k ) { s = T( s + E( oa, M, i, k ) * E( ob, M, k, j ) ); q = T( q + E( oa, M, i, k ) * E( oa, M, k, j ) ); }
        ENSURES_EQ( E( c.array, M, i, j ), s ); ENSURES_EQ( E( d.array, M, i, j ), q ); ENSURES_EQ( E( e.array, M, i, j ), s ); ENSURES_EQ( E( g.array, M, i, j ), s );
    }
    UNCHANGED( a, oa ); UNCHANGED( b, ob );
    // the identity is neutral on both sides
    for( size_t i = 0; i < M; ++i ) for( size_t j = 0; j < M; ++j ) E( i1.array, M, i, j ) = T( i == j );
    const Matrix< M, M, T > l = i1 * a, r = a * i1;
    for( size_t i = 0; i < M * M; ++i ) { ENSURES_EQ( l.array[ i ], oa[ i ] ); ENSURES_EQ( r.array[ i ], oa[ i ] ); }
    vmml::multiply< M, M, T >( a, b, i1 );
    for( size_t i = 0; i < M * M; ++i ) ENSURES_EQ( i1.array[ i ], c.array[ i ] );
}
template< size_t M, size_t N, class T > void mat_vec()
{
    Matrix< M, N, T > a; Vector< N, T > v; vc::sym( a ); vc::sym( v ); auto oa = vc::save( a ); auto ov = vc::save( v ); const Matrix< M, N, T >& ca = a;
    const Vector< M, T > r = ca * v;
    for( size_t i = 0; i < M; ++i )
    {
        T s = 0; for( size_t k = 0; k < N; ++k ) s = T( s + E( oa, M, i, k ) * ov[ k ] );
        ENSURES_EQ( r.array[ i ], s );
    }
    UNCHANGED( a, oa ); UNCHANGED( v, ov );
}
// N x N matrix on a point of dimension N-1: affine image divided by the last component
template< size_t N, class T > void homogeneous()
{
    Matrix< N, N, T > a; Vector< N - 1, T > v; vc::sym( a ); vc::sym( v ); auto oa = vc::save( a ); auto ov = vc::save( v ); const Matrix< N, N, T >& ca = a;
    T w = E( oa, N, N - 1, N - 1 ); for( size_t k = 0; k < N - 1; ++k ) w += E( oa, N, N - 1, k ) * ov[ k ];
    REQUIRES( w != T( 0 ) );
    const Vector< N - 1, T > r = ca * v;
    for( size_t i = 0; i < N - 1; ++i )
    {
        T s = E( oa, N, i, N - 1 ); for( size_t k = 0; k < N - 1; ++k ) s += E( oa, N, i, k ) * ov[ k ];
        ENSURES_EQ( r.array[ i ] * w, s );
    }
    UNCHANGED( a, oa ); UNCHANGED( v, ov );
}
// (N-1) x N matrix on a point of dimension N-1: affine image
template< size_t N, class T > void affine()
{
    Matrix< N - 1, N, T > a; Vector< N - 1, T > v; vc::sym( a ); vc::sym( v ); auto oa = vc::save( a ); auto ov = vc::save( v ); const Matrix< N - 1, N, T >& ca = a;
    const Vector< N - 1, T > r = ca * v;
    for( size_t i = 0; i < N - 1; ++i )
    {
        T s = E( oa, N - 1, i, N - 1 ); for( size_t k = 0; k < N - 1; ++k ) s += E( oa, N - 1, i, k ) * ov[ k ];
        ENSURES_EQ( r.array[ i ], s );
    }
    UNCHANGED( a, oa ); UNCHANGED( v, ov );
}
template< size_t M, size_t N, class T > void outer()
{
    Matrix< M, N, T > a; Vector< M, T > u; Vector< N, T > v; vc::sym( a ); vc::sym( u ); vc::sym( v ); auto ou = vc::save( u ); auto ov = vc::save( v );
    a.tensor( u, v );
    for( size_t i = 0; i < M; ++i ) for( size_t j = 0; j < N; ++j ) ENSURES_EQ( E( a.array, M, i, j ), T( ou[ i ] * ov[ j ] ) );
    UNCHANGED( u, ou ); UNCHANGED( v, ov );
}
// compatibility form: 4x4 from 3-vectors with homogeneous coordinate one
template< class T > void outer_compat()
{
    Matrix< 4, 4, T > a; Vector< 3, T > u, v; vc::sym( a ); vc::sym( u ); vc::sym( v ); auto ou = vc::save( u ), ov = vc::save( v );
    a.tensor( u, v );
    for( size_t i = 0; i < 4; ++i ) for( size_t j = 0; j < 4; ++j )
        ENSURES_EQ( E( a.array, 4, i, j ), T( ( j < 3 ? ou[ j ] : T( 1 ) ) * ( i < 3 ? ov[ i ] : T( 1 ) ) ) );
    UNCHANGED( u, ou ); UNCHANGED( v, ov );
}
template< size_t M, size_t N, size_t O, size_t P, class T > void kronecker()
{
    Matrix< M, N, T > a; Matrix< O, P, T > b; Matrix< M * O, N * P, T > r; vc::sym( a ); vc::sym( b ); vc::sym( r ); auto oa = vc::save( a ); auto ob = vc::save( b );
    const Matrix< M, N, T >& ca = a; ca.kronecker_product( b, r );
    for( size_t i = 0; i < M * O; ++i ) for( size_t j = 0; j < N * P; ++j )
        ENSURES_EQ( E( r.array, M * O, i, j ), T( E( oa, M, i / O, j / P ) * E( ob, O, i % O, j % P ) ) );
    UNCHANGED( a, oa ); UNCHANGED( b, ob );
}
template< size_t M, size_t O, size_t N, class T > void khatri_rao()
{
    Matrix< M, N, T > a; Matrix< O, N, T > b; Matrix< M * O, N, T > r; vc::sym( a ); vc::sym( b ); vc::sym( r ); auto oa = vc::save( a ); auto ob = vc::save( b );
    const Matrix< M, N, T >& ca = a; ca.khatri_rao_product( b, r );
    for( size_t i = 0; i < M * O; ++i ) for( size_t j = 0; j < N; ++j )
        ENSURES_EQ( E( r.array, M * O, i, j ), T( E( oa, M, i / O, j ) * E( ob, O, i % O, j ) ) );
    UNCHANGED( a, oa ); UNCHANGED( b, ob );
}
template< size_t M, size_t N, class T > void covariance()
{
    Matrix< M, N, T > a; Matrix< M, M, T > r; vc::sym( a ); vc::sym( r ); auto oa = vc::save( a );
    const Matrix< M, N, T >& ca = a; ca.symmetric_covariance( r );
    for( size_t i = 0; i < M; ++i ) for( size_t j = 0; j < M; ++j )
    {
        T s = 0; for( size_t k = 0; k < N; ++k ) s = T( s + E( oa, M, i, k ) * E( oa, M, j, k ) );
        ENSURES_EQ( E( r.array, M, i, j ), s );
    }
    UNCHANGED( a, oa );
}
template< size_t O, size_t P, size_t Q, size_t R, class T > void direct_sums()
{
    Matrix< O, P, T > a; Matrix< Q, R, T > b; Matrix< O + Q, P + R, T > r; vc::sym( a ); vc::sym( b ); vc::sym( r ); auto oa = vc::save( a ); auto ob = vc::save( b );
    r.direct_sum( a, b );
    for( size_t i = 0; i < O + Q; ++i ) for( size_t j = 0; j < P + R; ++j )
        ENSURES_EQ( E( r.array, O + Q, i, j ), i < O && j < P ? E( oa, O, i, j ) : i >= O && j >= P ? E( ob, Q, i - O, j - P ) : T( 0 ) );
    UNCHANGED( a, oa ); UNCHANGED( b, ob );
}
inline size_t border( size_t x, size_t half, size_t k, size_t n ) { const long s = long( x ) + long( k ) - long( half ); return s < 0 ? 0 : s >= long( n ) ? n - 1 : size_t( s ); }
template< size_t M, size_t N, size_t U, size_t V, class T > void convolution()
{
    Matrix< M, N, T > a; Matrix< U, V, T > k; vc::sym( a ); vc::sym( k ); auto oa = vc::save( a ); auto ok = vc::save( k );
    a.convolve( k );
    for( size_t i = 0; i < M; ++i ) for( size_t j = 0; j < N; ++j )
    {
        T s = 0;
        for( size_t y = 0; y < U; ++y ) for( size_t x = 0; x < V; ++x )
            s += E( ok, U, y, x ) * E( oa, M, border( i, U / 2, y, M ), border( j, V / 2, x, N ) );
        ENSURES_EQ( E( a.array, M, i, j ), s );
    }
    UNCHANGED( k, ok );
}
// integer elements, as long as the sums are representable
template< size_t M, size_t N, size_t U, size_t V, class T > void convolution_int()
{
    Matrix< M, N, T > a; Matrix< U, V, T > k; const long lo = std::numeric_limits< T >::is_signed ? -1 : 0;
    const long big = sizeof( T ) == 1 ? 5 : 10000, kbig = sizeof( T ) == 1 ? 255 / ( 5 * long( U * V ) ) : 10000;
    static_assert( U * V <= 20, "" );
    for( size_t i = 0; i < M * N; ++i ) a.array[ i ] = T( vc_int( lo * big, big ) );
    for( size_t i = 0; i < U * V; ++i ) k.array[ i ] = T( vc_int( lo * kbig, kbig ) );
    auto oa = vc::save( a ); auto ok = vc::save( k );
    a.convolve( k );
    for( size_t i = 0; i < M; ++i ) for( size_t j = 0; j < N; ++j )
    {
        long s = 0;
        for( size_t y = 0; y < U; ++y ) for( size_t x = 0; x < V; ++x )
            s += long( E( ok, U, y, x ) ) * long( E( oa, M, border( i, U / 2, y, M ), border( j, V / 2, x, N ) ) );
        ENSURES( long( E( a.array, M, i, j ) ) == s );
    }
    UNCHANGED( k, ok );
}
#define MUL( M, P, N ) PROVE_ALL( multiply##M##P##N, products, M, P, N )
MUL( 1, 1, 1 ) MUL( 1, 3, 1 ) MUL( 2, 1, 3 ) MUL( 2, 2, 2 ) MUL( 2, 3, 2 ) MUL( 3, 2, 3 ) MUL( 2, 3, 4 ) MUL( 4, 3, 2 ) MUL( 3, 3, 3 ) MUL( 3, 4, 3 ) MUL( 4, 4, 1 ) MUL( 1, 4, 4 ) MUL( 4, 4, 4 ) MUL( 3, 5, 2 ) MUL( 5, 5, 5 ) MUL( 6, 2, 3 ) MUL( 2, 6, 2 ) MUL( 2, 9, 1 ) MUL( 5, 1, 4 ) MUL( 7, 8, 5 ) MUL( 2, 17, 2 ) MUL( 9, 3, 9 ) MUL( 17, 2, 1 ) MUL( 8, 8, 8 )
#define SQ( M ) PROVE_ALL( in_place##M, in_place, M )
SQ( 1 ) SQ( 2 ) SQ( 3 ) SQ( 4 ) SQ( 5 ) SQ( 7 )
#define MV( M, N ) PROVE_ALL( mat_vec##M##N, mat_vec, M, N )
MV( 1, 1 ) MV( 2, 2 ) MV( 2, 3 ) MV( 3, 2 ) MV( 3, 3 ) MV( 3, 4 ) MV( 4, 3 ) MV( 4, 4 ) MV( 1, 4 ) MV( 5, 2 ) MV( 5, 5 ) MV( 2, 8 ) MV( 6, 6 ) MV( 3, 9 ) MV( 17, 17 ) MV( 9, 33 )
#define H( N ) PROVE_FD( homogeneous##N, homogeneous, N ) PROVE_FD( affine##N, affine, N )
H( 2 ) H( 3 ) H( 4 ) H( 5 ) H( 6 )
#define O2( M, N ) PROVE_ALL( tensor##M##N, outer, M, N ) PROVE_ALL( covariance##M##N, covariance, M, N )
O2( 1, 1 ) O2( 2, 2 ) O2( 2, 3 ) O2( 3, 2 ) O2( 3, 3 ) O2( 4, 4 ) O2( 4, 2 ) O2( 1, 3 ) O2( 5, 5 ) O2( 6, 3 ) O2( 2, 7 ) O2( 9, 8 ) O2( 17, 3 )
PROVE( tensor_compat_f, outer_compat< float > ) PROVE( tensor_compat_d, outer_compat< double > ) PROVE( tensor_compat_i, outer_compat< int > )
#define K( M, N, O, P ) PROVE_ALL( kronecker##M##N##O##P, kronecker, M, N, O, P )
K( 1, 1, 1, 1 ) K( 2, 2, 2, 2 ) K( 2, 3, 3, 2 ) K( 1, 3, 2, 2 ) K( 3, 2, 1, 3 ) K( 2, 1, 2, 3 ) K( 3, 3, 2, 2 ) K( 2, 2, 3, 3 ) K( 4, 4, 4, 4 ) K( 5, 1, 3, 4 )
#define KR( M, O, N ) PROVE_ALL( khatri_rao##M##O##N, khatri_rao, M, O, N )
KR( 1, 1, 1 ) KR( 2, 3, 2 ) KR( 3, 2, 2 ) KR( 2, 2, 3 ) KR( 1, 4, 2 ) KR( 4, 3, 4 ) KR( 5, 7, 3 ) KR( 2, 2, 9 )
#define DS( O, P, Q, R ) PROVE_ALL( direct_sum##O##P##Q##R, direct_sums, O, P, Q, R )
DS( 1, 1, 1, 1 ) DS( 2, 2, 1, 1 ) DS( 1, 1, 2, 2 ) DS( 1, 2, 2, 1 ) DS( 2, 3, 3, 1 ) DS( 3, 1, 1, 3 ) DS( 3, 3, 2, 2 ) DS( 4, 2, 2, 4 ) DS( 7, 5, 3, 6 )
#define CV( M, N, U, V ) PROVE_FD( convolve##M##N##U##V, convolution, M, N, U, V ) PROVE( convolve##M##N##U##V##_i, convolution_int< M, N, U, V, int > ) \
    PROVE( convolve##M##N##U##V##_b, convolution_int< M, N, U, V, uint8_t > )
CV( 3, 3, 3, 3 ) CV( 3, 4, 3, 1 ) CV( 2, 5, 1, 3 ) CV( 4, 2, 3, 3 ) CV( 2, 3, 2, 2 ) CV( 1, 1, 3, 3 ) CV( 4, 4, 1, 1 ) CV( 2, 2, 5, 3 ) CV( 4, 5, 3, 5 ) CV( 5, 5, 3, 3 ) CV( 9, 8, 3, 3 )
#define TMUL( M, P, N ) PROVE_T_ALL( multiply##M##P##N, products, M, P, N )
TMUL( 6, 6, 6 ) PROVE_T_ALL( in_place6, in_place, 6 )
PROVE_T_ALL( kronecker3333, kronecker, 3, 3, 3, 3 )   PROVE_T_FD( convolve4653, convolution, 4, 6, 5, 3 )

static void canary() { Matrix< 2, 2, double > a, b; vc::sym( a ); vc::sym( b ); const Matrix< 2, 2, double > p = a * b, q = b * a; ENSURES_EQ( p.array[ 1 ], q.array[ 1 ] ); }
REFUTE( commutes, canary )
static void canary2() { Matrix< 3, 3, float > a; Matrix< 3, 3, float > k; vc::sym( a ); vc::sym( k ); auto o = vc::save( a ); a.convolve( k ); ENSURES_EQ( a.array[ 4 ], o[ 4 ] * k.array[ 4 ] ); }
REFUTE( convolve_pointwise, canary2 )

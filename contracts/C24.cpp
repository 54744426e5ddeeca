// C24: QR decomposition factors every matrix with linearly independent columns.
// Every such A is q * r for exactly one q with orthonormal columns and one upper triangular r with positive diagonal (`gs_step` proves the
// inductive step of that fact); the contract states that the code returns these two factors for ALL q and r of that kind.
// VC-CONFIG-QUICK: safe=-DVMMLIB_SAFE_ACCESSORS -DVMMLIB_THROW_EXCEPTIONS; release=-DNDEBUG
#include "vc.h"
#include <vmmlib/vector.hpp>
#include <vmmlib/matrix.hpp>
#include <vmmlib/qr_decomposition.hpp>
using namespace vmml;

// any M x N table with orthonormal columns (the bounded stand-in orthonormalises its random inputs)
template< size_t M, size_t N, class T > void sym_orthonormal( T (&q)[ N ][ M ] )
{
    for( size_t j = 0; j < N; ++j )
    {
        for( size_t a = 0; a < M; ++a ) q[ j ][ a ] = vc::any< T >();
        if( vc_random() )
        {
            for( int k = 0; k < 2; ++k ) for( size_t i = 0; i < j; ++i ) { T d = 0; for( size_t a = 0; a < M; ++a ) d += q[ i ][ a ] * q[ j ][ a ]; for( size_t a = 0; a < M; ++a ) q[ j ][ a ] -= d * q[ i ][ a ]; }
            T l = 0; for( size_t a = 0; a < M; ++a ) l += q[ j ][ a ] * q[ j ][ a ]; REQUIRES( l > T( 1e-3 ) ); l = std::sqrt( l ); for( size_t a = 0; a < M; ++a ) q[ j ][ a ] /= l;
        }
    }
    for( size_t j = 0; j < N; ++j ) for( size_t i = 0; i <= j; ++i ) { T d = 0; for( size_t a = 0; a < M; ++a ) d += q[ i ][ a ] * q[ j ][ a ]; REQUIRES( vc::eq( d, T( i == j ) ) ); }
}
template< size_t M, size_t N, class T > struct Case
{
    T q[ N ][ M ], r[ N ][ N ]; Matrix< M, N, T > A; Matrix< M, M, T > Q; Matrix< N, N, T > R;
    Case()
    {
        sym_orthonormal< M, N, T >( q ); vc::sym( Q ); vc::sym( R );
        for( size_t j = 0; j < N; ++j ) for( size_t i = 0; i < N; ++i ) { r[ i ][ j ] = i <= j ? vc::any< T >() : T( 0 ); if( i == j ) REQUIRES( r[ i ][ j ] > T( 0 ) ); }
        for( size_t j = 0; j < N; ++j ) for( size_t a = 0; a < M; ++a ) { T s = 0; for( size_t k = 0; k <= j; ++k ) s += q[ k ][ a ] * r[ k ][ j ]; A.array[ a + M * j ] = s; }
    }
};
template< size_t M, size_t N, class T > void factors()
{
    Case< M, N, T > c; auto oA = vc::save( c.A );
    qr_decompose_gram_schmidt( c.A, c.Q, c.R );
    UNCHANGED( c.A, oA );
    for( size_t j = 0; j < N; ++j ) for( size_t a = 0; a < M; ++a ) ENSURES_EQ( c.Q.array[ a + M * j ], c.q[ j ][ a ] );
    for( size_t j = 0; j < N; ++j ) for( size_t i = 0; i < N; ++i ) { if( i <= j ) ENSURES_EQ( c.R.array[ i + N * j ], c.r[ i ][ j ] ); else ENSURES( c.R.array[ i + N * j ] == T( 0 ) ); }
    for( size_t j = 0; j < N; ++j ) ENSURES( c.R.array[ j + N * j ] > T( 0 ) );
}
// a column independent of the previous orthonormal directions extends them: its residual v = a - sum r_j q_j (r_j = q_j.a), normalised, is the
// next direction.  Unconditional identities: q_i.v = r_i - sum_j r_j (q_i.q_j), which is 0 for orthonormal q; q_i.(v/|v|) = (q_i.v)/|v|;
// |v/|v|| = 1; a = sum r_j q_j + |v| (v/|v|).  v = 0 exactly if a is a combination of the q.
template< size_t M, size_t J, class T > void gs_step()
{
    T q[ J + 1 ][ M ], a[ M ], r[ J + 1 ], v[ M ], l = 0;
    for( size_t j = 0; j < J; ++j ) for( size_t k = 0; k < M; ++k ) q[ j ][ k ] = vc::any< T >();
    for( size_t k = 0; k < M; ++k ) v[ k ] = a[ k ] = vc::any< T >();
    for( size_t j = 0; j < J; ++j ) { r[ j ] = 0; for( size_t k = 0; k < M; ++k ) r[ j ] += q[ j ][ k ] * a[ k ]; for( size_t k = 0; k < M; ++k ) v[ k ] -= r[ j ] * q[ j ][ k ]; }
    for( size_t i = 0; i < J; ++i ) { T d = 0, e = r[ i ], o = r[ i ]; for( size_t k = 0; k < M; ++k ) d += q[ i ][ k ] * v[ k ]; for( size_t j = 0; j < J; ++j ) { T g = 0; for( size_t k = 0; k < M; ++k ) g += q[ i ][ k ] * q[ j ][ k ]; e -= r[ j ] * g; o -= r[ j ] * T( i == j ); } ENSURES_EQ( d, e ); ENSURES_EQ( o, T( 0 ) ); }
    T w[ M ]; for( size_t k = 0; k < M; ++k ) { w[ k ] = v[ k ]; v[ k ] = vc::any< T >(); l += v[ k ] * v[ k ]; }     // from here on: any residual
    REQUIRES( l > T( 0 ) );
    r[ J ] = std::sqrt( l ); ENSURES( r[ J ] > T( 0 ) ); T n = 0;
    for( size_t k = 0; k < M; ++k ) { q[ J ][ k ] = v[ k ] / r[ J ]; n += q[ J ][ k ] * q[ J ][ k ]; ENSURES_EQ( r[ J ] * q[ J ][ k ], v[ k ] ); } ENSURES_EQ( n, T( 1 ) );
    for( size_t i = 0; i < J; ++i ) { T d = 0, e = 0; for( size_t k = 0; k < M; ++k ) { d += q[ i ][ k ] * q[ J ][ k ]; e += q[ i ][ k ] * v[ k ]; } ENSURES_EQ( d, e / r[ J ] ); }
    for( size_t k = 0; k < M; ++k ) { T s = w[ k ]; for( size_t j = 0; j < J; ++j ) s += q[ j ][ k ] * r[ j ]; ENSURES_EQ( s, a[ k ] ); }
}
#define QR( m, n ) PROVE_FD( qr_##m##n, factors, m, n )
QR( 1, 1 ) QR( 2, 1 ) QR( 2, 2 ) QR( 3, 1 ) QR( 3, 2 ) QR( 3, 3 ) QR( 4, 1 ) QR( 4, 2 ) QR( 4, 3 ) QR( 4, 4 ) QR( 5, 3 ) QR( 5, 5 ) QR( 6, 4 ) QR( 7, 2 ) QR( 6, 5 ) QR( 6, 6 ) QR( 7, 6 ) QR( 7, 7 ) QR( 9, 8 ) QR( 8, 4 ) QR( 10, 1 ) QR( 13, 4 ) QR( 12, 11 )
#define GS( m, n ) PROVE( gs_##m##n, gs_step< m, n, double > )
GS( 1, 0 ) GS( 2, 0 ) GS( 2, 1 ) GS( 3, 0 ) GS( 3, 1 ) GS( 3, 2 ) GS( 4, 0 ) GS( 4, 1 ) GS( 4, 2 ) GS( 4, 3 ) GS( 5, 0 ) GS( 5, 1 ) GS( 5, 2 )

// R is not the transposed factor, and its diagonal is not the column length
static void canary() { Case< 2, 2, double > c; qr_decompose_gram_schmidt( c.A, c.Q, c.R ); ENSURES_EQ( c.R.array[ 1 ], c.r[ 0 ][ 1 ] ); }
REFUTE( transposed, canary )
static void canary2() { Case< 3, 2, double > c; qr_decompose_gram_schmidt( c.A, c.Q, c.R ); ENSURES_EQ( c.R.array[ 3 ] * c.R.array[ 3 ], c.A.array[ 3 ] * c.A.array[ 3 ] + c.A.array[ 4 ] * c.A.array[ 4 ] + c.A.array[ 5 ] * c.A.array[ 5 ] ); }
REFUTE( column_length, canary2 )

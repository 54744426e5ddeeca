// C10: determinants, minors, cofactors and adjugates satisfy their expansions
#include "vc.h"
#include <vmmlib/vector.hpp>
#include <vmmlib/matrix.hpp>
using namespace vmml;
#define E( a, R, r, c ) ( a )[ ( r ) + ( R ) * ( c ) ]
#define EACH( M, N ) for( size_t r = 0; r < M; ++r ) for( size_t c = 0; c < N; ++c )

// Leibniz: sum over all permutations of the signed products (independent of the code under test)
template< size_t M, class T, class A > T leibniz( const A& a )
{
    size_t p[ M + 1 ]; for( size_t i = 0; i < M; ++i ) p[ i ] = i;
    T sum = 0;
    for( ;; )
    {
        size_t inv = 0; for( size_t i = 0; i < M; ++i ) for( size_t j = i + 1; j < M; ++j ) inv += p[ j ] < p[ i ];
        T t = 1; for( size_t i = 0; i < M; ++i ) t = T( t * E( a, M, i, p[ i ] ) );
        sum = inv % 2 ? T( sum - t ) : T( sum + t );
        size_t k = M; // next permutation in lexicographic order
        for( size_t i = 0; i + 1 < M; ++i ) if( p[ i ] < p[ i + 1 ] ) k = i;
        if( k == M ) return sum;
        size_t l = k + 1; for( size_t i = k + 1; i < M; ++i ) if( p[ k ] < p[ i ] ) l = i;
        const size_t s = p[ k ]; p[ k ] = p[ l ]; p[ l ] = s;
        for( size_t i = k + 1, j = M - 1; i < j; ++i, --j ) { const size_t q = p[ i ]; p[ i ] = p[ j ]; p[ j ] = q; }
    }
}
template< size_t M, class T, class A > vc::arr< ( M - 1 ) * ( M - 1 ), T > without( const A& a, size_t x, size_t y )
{
    vc::arr< ( M - 1 ) * ( M - 1 ), T > m;
    EACH( M - 1, M - 1 ) E( m, M - 1, r, c ) = E( a, M, r + ( r >= x ), c + ( c >= y ) );
    return m;
}
template< size_t M, class T > void determinant()
{
    Matrix< M, M, T > a; vc::sym( a ); auto oa = vc::save( a ); const Matrix< M, M, T >& ca = a;
    const T d = leibniz< M, T >( oa );
    ENSURES_EQ( ca.det(), d ); ENSURES_EQ( vmml::compute_determinant( ca ), d );
    UNCHANGED( a, oa );
}
// multiplicative, alternating, and invariant under transposition
template< size_t M, class T > void determinant_laws()
{
    Matrix< M, M, T > a, b; vc::sym( a ); vc::sym( b ); const Matrix< M, M, T > t = transpose( a ), p = a * b;
    ENSURES_EQ( t.det(), a.det() ); ENSURES_EQ( p.det(), T( a.det() * b.det() ) );
}
template< size_t M, class T > void minors()
{
    Matrix< M, M, T > a; Matrix< M - 1, M - 1, T > m; vc::sym( a ); vc::sym( m ); auto oa = vc::save( a ); const Matrix< M, M, T >& ca = a;
    const size_t x = vc_size( 0, M - 1 ), y = vc_size( 0, M - 1 );
    const T d = ca.get_minor( m, x, y );
    const auto o = without< M, T >( oa, x, y );
    for( size_t i = 0; i < ( M - 1 ) * ( M - 1 ); ++i ) ENSURES_EQ( m.array[ i ], o[ i ] );
    for( size_t i = 0; i < M; ++i ) for( size_t j = 0; j < M; ++j )
    {
        Matrix< M - 1, M - 1, T > n; const T e = ca.get_minor( n, i, j );
        ENSURES_EQ( e, ( leibniz< M - 1, T >( without< M, T >( oa, i, j ) ) ) );
        if( x == i && y == j ) ENSURES_EQ( d, e );
    }
    UNCHANGED( a, oa );
}
template< size_t M, class T > void cofactors()
{
    Matrix< M, M, T > a, k, j; vc::sym( a ); vc::sym( k ); vc::sym( j ); auto oa = vc::save( a ); const Matrix< M, M, T >& ca = a;
    ca.get_cofactors( k ); ca.get_adjugate( j );
    EACH( M, M )
    {
        const T m = leibniz< M - 1, T >( without< M, T >( oa, r, c ) );
        ENSURES_EQ( E( k.array, M, r, c ), ( r + c ) % 2 ? T( -m ) : m );
        ENSURES_EQ( E( j.array, M, c, r ), ( r + c ) % 2 ? T( -m ) : m );
    }
    UNCHANGED( a, oa );
}
template< size_t M, class T > void adjugate()
{
    Matrix< M, M, T > a, j; vc::sym( a ); vc::sym( j ); auto oa = vc::save( a ); const Matrix< M, M, T >& ca = a;
    ca.get_adjugate( j );
    const T d = leibniz< M, T >( oa );
    EACH( M, M )
    {
        T l = 0, q = 0; for( size_t k = 0; k < M; ++k ) { l = T( l + E( j.array, M, r, k ) * E( oa, M, k, c ) ); q = T( q + E( oa, M, r, k ) * E( j.array, M, k, c ) ); }
        ENSURES_EQ( l, r == c ? d : T( 0 ) ); ENSURES_EQ( q, r == c ? d : T( 0 ) );
    }
    UNCHANGED( a, oa );
}
#define FDI( n, f, M ) PROVE_FD( n##M, f, M ) PROVE( n##M##_i, f< M, int > ) PROVE( n##M##_u, f< M, unsigned > )
FDI( det, determinant, 1 ) FDI( det, determinant, 2 ) FDI( det, determinant, 3 ) FDI( det, determinant, 4 )
FDI( det_laws, determinant_laws, 2 ) FDI( det_laws, determinant_laws, 3 )
PROVE_FD( det_laws4, determinant_laws, 4 )
#define Q( M ) FDI( minor, minors, M ) FDI( cofactors, cofactors, M )
Q( 2 ) Q( 3 ) Q( 4 ) PROVE_FD( minor5, minors, 5 ) PROVE_FD( cofactors5, cofactors, 5 )
FDI( adjugate, adjugate, 2 ) FDI( adjugate, adjugate, 3 ) FDI( adjugate, adjugate, 4 )
static void canary() { Matrix< 3, 3, double > a; vc::sym( a ); ENSURES_EQ( a.det(), a.array[ 0 ] * a.array[ 4 ] * a.array[ 8 ] ); }
REFUTE( det_diagonal, canary )
static void canary2() { Matrix< 3, 3, float > a, k; vc::sym( a ); a.get_cofactors( k ); Matrix< 2, 2, float > m; ENSURES_EQ( k.array[ 1 ], a.get_minor( m, 1, 0 ) ); }
REFUTE( cofactor_unsigned, canary2 )

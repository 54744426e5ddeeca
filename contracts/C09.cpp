// C09: transpose, rows, columns, sub-matrices and diagonals move the right elements
// VC-CONFIG-QUICK: release=-DNDEBUG
#include "vc.h"
#include <vmmlib/vector.hpp>
#include <vmmlib/matrix.hpp>
using namespace vmml;
#define E( a, R, r, c ) ( a )[ ( r ) + ( R ) * ( c ) ]
#define EACH( M, N ) for( size_t r = 0; r < M; ++r ) for( size_t c = 0; c < N; ++c )

template< size_t M, size_t N, class T > void transposes()
{
    Matrix< M, N, T > a; Matrix< N, M, T > t; vc::sym( a ); vc::sym( t ); auto oa = vc::save( a ); const Matrix< M, N, T >& ca = a;
    ca.transpose_to( t );
    const Matrix< N, M, T > f = vmml::transpose( ca ), k = t;
    const Matrix< M, N, T > b = vmml::transpose( k );
    EACH( M, N ) { ENSURES_EQ( E( t.array, N, c, r ), E( oa, M, r, c ) ); ENSURES_EQ( E( f.array, N, c, r ), E( oa, M, r, c ) ); }
    UNCHANGED( b, oa ); UNCHANGED( a, oa );
}
template< size_t M, class T > void transposed_in_place()
{
    Matrix< M, M, T > a; vc::sym( a ); auto oa = vc::save( a );
    a = vmml::transpose( a );
    EACH( M, M ) ENSURES_EQ( E( a.array, M, r, c ), E( oa, M, c, r ) );
}
template< size_t M, size_t N, class T > void rows()
{
    Matrix< M, N, T > a; Vector< N, T > v; Matrix< 1, N, T > w; vc::sym( a ); vc::sym( v ); vc::sym( w ); auto oa = vc::save( a ); auto ov = vc::save( v ); auto ow = vc::save( w );
    const Matrix< M, N, T >& ca = a; const size_t k = vc_size( 0, M - 1 );
    const Vector< N, T > g = ca.get_row( k );
    Vector< N, T > h; Matrix< 1, N, T > m; vc::sym( h ); vc::sym( m );
    ca.get_row( k, h ); ca.get_row( k, m );
    for( size_t c = 0; c < N; ++c ) { ENSURES_EQ( g.array[ c ], E( oa, M, k, c ) ); ENSURES_EQ( h.array[ c ], E( oa, M, k, c ) ); ENSURES_EQ( m.array[ c ], E( oa, M, k, c ) ); }
    UNCHANGED( a, oa );
    Matrix< M, N, T > b( a ), d( a );
    b.set_row( k, v ); d.set_row( k, w );
    EACH( M, N ) { ENSURES_EQ( E( b.array, M, r, c ), r == k ? ov[ c ] : E( oa, M, r, c ) ); ENSURES_EQ( E( d.array, M, r, c ), r == k ? ow[ c ] : E( oa, M, r, c ) ); }
    const Vector< N, T > z = b.get_row( k );
    UNCHANGED( z, ov ); UNCHANGED( v, ov ); UNCHANGED( w, ow ); UNCHANGED( a, oa );
}
template< size_t M, size_t N, class T > void columns()
{
    Matrix< M, N, T > a; Vector< M, T > v; Matrix< M, 1, T > w; vc::sym( a ); vc::sym( v ); vc::sym( w ); auto oa = vc::save( a ); auto ov = vc::save( v ); auto ow = vc::save( w );
    const Matrix< M, N, T >& ca = a; const size_t k = vc_size( 0, N - 1 );
    const Vector< M, T > g = ca.get_column( k );
    Vector< M, T > h; Matrix< M, 1, T > m; vc::sym( h ); vc::sym( m );
    ca.get_column( k, h ); ca.get_column( k, m );
    for( size_t r = 0; r < M; ++r ) { ENSURES_EQ( g.array[ r ], E( oa, M, r, k ) ); ENSURES_EQ( h.array[ r ], E( oa, M, r, k ) ); ENSURES_EQ( m.array[ r ], E( oa, M, r, k ) ); }
    UNCHANGED( a, oa );
    Matrix< M, N, T > b( a ), d( a );
    b.set_column( k, v ); d.set_column( k, w );
    EACH( M, N ) { ENSURES_EQ( E( b.array, M, r, c ), c == k ? ov[ r ] : E( oa, M, r, c ) ); ENSURES_EQ( E( d.array, M, r, c ), c == k ? ow[ r ] : E( oa, M, r, c ) ); }
    const Vector< M, T > z = b.get_column( k );
    UNCHANGED( z, ov ); UNCHANGED( v, ov ); UNCHANGED( w, ow ); UNCHANGED( a, oa );
}
template< size_t M, size_t N, size_t O, size_t P, class T > void blocks()
{
    Matrix< M, N, T > a; Matrix< O, P, T > s; vc::sym( a ); vc::sym( s ); auto oa = vc::save( a ); auto os = vc::save( s ); const Matrix< M, N, T >& ca = a;
    const size_t x = vc_size( 0, M - O ), y = vc_size( 0, N - P );
    const Matrix< O, P, T > g = ca.template get_sub_matrix< O, P >( x, y );
    Matrix< O, P, T > h; vc::sym( h ); ca.get_sub_matrix( h, x, y );
    EACH( O, P ) { ENSURES_EQ( E( g.array, O, r, c ), E( oa, M, r + x, c + y ) ); ENSURES_EQ( E( h.array, O, r, c ), E( oa, M, r + x, c + y ) ); }
    UNCHANGED( a, oa );
    Matrix< M, N, T > b( a );
    b.set_sub_matrix( s, x, y );
    EACH( M, N ) ENSURES_EQ( E( b.array, M, r, c ), r >= x && r < x + O && c >= y && c < y + P ? E( os, O, r - x, c - y ) : E( oa, M, r, c ) );
    const Matrix< O, P, T > z = b.template get_sub_matrix< O, P >( x, y );
    UNCHANGED( z, os ); UNCHANGED( s, os );
    // default offsets: the upper left corner
    Matrix< M, N, T > d( a ); d.set_sub_matrix( s );
    EACH( M, N ) ENSURES_EQ( E( d.array, M, r, c ), r < O && c < P ? E( os, O, r, c ) : E( oa, M, r, c ) );
    Matrix< O, P, T > q; vc::sym( q ); ca.get_sub_matrix( q );
    EACH( O, P ) ENSURES_EQ( E( q.array, O, r, c ), E( oa, M, r, c ) );
    UNCHANGED( a, oa );
}
template< size_t M, class T > void diagonal()
{
    Matrix< M, M, T > a; Vector< M, T > v; vc::sym( a ); vc::sym( v ); auto ov = vc::save( v );
    a.diag( v );
    EACH( M, M ) ENSURES_EQ( E( a.array, M, r, c ), r == c ? ov[ r ] : T( 0 ) );
    UNCHANGED( v, ov );
}
// larger shapes: one row, column and block after the other
template< size_t M, size_t N, class T > void large()
{
    Matrix< M, N, T > a; Vector< N, T > v; Vector< M, T > w; vc::sym( a ); vc::sym( v ); vc::sym( w ); auto oa = vc::save( a ); auto ov = vc::save( v ); auto ow = vc::save( w );
    Matrix< 1, N, T > mv; Matrix< M, 1, T > mw; for( size_t c = 0; c < N; ++c ) mv.array[ c ] = ov[ c ]; for( size_t r = 0; r < M; ++r ) mw.array[ r ] = ow[ r ];
    const Matrix< M, N, T >& ca = a;
    for( size_t k = 0; k < M; ++k )
    {
        const Vector< N, T > g = ca.get_row( k ); Vector< N, T > h; Matrix< 1, N, T > m; ca.get_row( k, h ); ca.get_row( k, m );
        for( size_t c = 0; c < N; ++c ) { ENSURES_EQ( g.array[ c ], E( oa, M, k, c ) ); ENSURES_EQ( h.array[ c ], E( oa, M, k, c ) ); ENSURES_EQ( m.array[ c ], E( oa, M, k, c ) ); }
        Matrix< M, N, T > b( a ), d( a ); b.set_row( k, v ); d.set_row( k, mv );
        EACH( M, N ) { ENSURES_EQ( E( b.array, M, r, c ), r == k ? ov[ c ] : E( oa, M, r, c ) ); ENSURES_EQ( E( d.array, M, r, c ), r == k ? ov[ c ] : E( oa, M, r, c ) ); }
    }
    for( size_t k = 0; k < N; ++k )
    {
        const Vector< M, T > g = ca.get_column( k ); Vector< M, T > h; Matrix< M, 1, T > m; ca.get_column( k, h ); ca.get_column( k, m );
        for( size_t r = 0; r < M; ++r ) { ENSURES_EQ( g.array[ r ], E( oa, M, r, k ) ); ENSURES_EQ( h.array[ r ], E( oa, M, r, k ) ); ENSURES_EQ( m.array[ r ], E( oa, M, r, k ) ); }
        Matrix< M, N, T > b( a ), d( a ); b.set_column( k, w ); d.set_column( k, mw );
        EACH( M, N ) { ENSURES_EQ( E( b.array, M, r, c ), c == k ? ow[ r ] : E( oa, M, r, c ) ); ENSURES_EQ( E( d.array, M, r, c ), c == k ? ow[ r ] : E( oa, M, r, c ) ); }
    }
    UNCHANGED( a, oa ); UNCHANGED( v, ov ); UNCHANGED( w, ow );
}
template< size_t M, size_t N, size_t O, size_t P, class T > void large_blocks()
{
    Matrix< M, N, T > a; Matrix< O, P, T > s; vc::sym( a ); vc::sym( s ); auto oa = vc::save( a ); auto os = vc::save( s ); const Matrix< M, N, T >& ca = a;
    for( size_t x = 0; x <= M - O; ++x ) for( size_t y = 0; y <= N - P; ++y )
    {
        const Matrix< O, P, T > g = ca.template get_sub_matrix< O, P >( x, y ); Matrix< O, P, T > h; ca.get_sub_matrix( h, x, y );
        EACH( O, P ) { ENSURES_EQ( E( g.array, O, r, c ), E( oa, M, r + x, c + y ) ); ENSURES_EQ( E( h.array, O, r, c ), E( oa, M, r + x, c + y ) ); }
        Matrix< M, N, T > b( a ); b.set_sub_matrix( s, x, y );
        EACH( M, N ) ENSURES_EQ( E( b.array, M, r, c ), r >= x && r < x + O && c >= y && c < y + P ? E( os, O, r - x, c - y ) : E( oa, M, r, c ) );
    }
    UNCHANGED( a, oa ); UNCHANGED( s, os );
}
#define LG( M, N ) PROVE_FD( large##M##_##N, large, M, N ) PROVE_I( large##M##_##N, large, M, N ) PROVE_ALL( transpose##M##N, transposes, M, N )
LG( 8, 7 ) LG( 7, 8 ) LG( 9, 5 ) LG( 5, 9 ) LG( 12, 2 ) LG( 2, 12 ) LG( 10, 1 ) LG( 1, 10 ) LG( 8, 8 )
#define LB( M, N, O, P ) PROVE_FD( large_block##M##_##N##_##O##_##P, large_blocks, M, N, O, P ) PROVE_I( large_block##M##_##N##_##O##_##P, large_blocks, M, N, O, P )
LB( 8, 7, 4, 5 ) LB( 7, 8, 5, 6 ) LB( 6, 6, 2, 5 ) LB( 9, 3, 7, 2 ) LB( 3, 10, 1, 8 ) LB( 8, 8, 7, 7 )
#define S( M, N ) PROVE_ALL( transpose##M##N, transposes, M, N ) PROVE_ALL( rows##M##N, rows, M, N ) PROVE_ALL( columns##M##N, columns, M, N )
S( 1, 1 ) S( 1, 4 ) S( 4, 1 ) S( 2, 2 ) S( 2, 3 ) S( 3, 2 ) S( 3, 3 ) S( 3, 4 ) S( 4, 3 ) S( 4, 4 ) S( 5, 2 ) S( 2, 6 ) S( 7, 3 ) S( 1, 9 )
#define SL( M, N ) PROVE_ALL( transpose##M##N, transposes, M, N ) PROVE( rows##M##N##_f, rows< M, N, float > ) PROVE( columns##M##N##_f, columns< M, N, float > )
SL( 5, 5 ) PROVE_ALL( transpose66, transposes, 6, 6 ) PROVE_FD( rows66, rows, 6, 6 )
#define Q( M ) PROVE_ALL( transpose_in_place##M, transposed_in_place, M ) PROVE_ALL( diag##M, diagonal, M )
Q( 1 ) Q( 2 ) Q( 3 ) Q( 4 ) Q( 5 ) Q( 6 ) Q( 8 )
#define B( M, N, O, P ) PROVE_ALL( block##M##N##O##P, blocks, M, N, O, P )
B( 1, 1, 1, 1 ) B( 3, 3, 2, 2 ) B( 4, 4, 3, 3 ) B( 4, 3, 2, 1 ) B( 3, 4, 1, 2 ) B( 2, 5, 2, 3 ) B( 4, 4, 4, 4 ) B( 4, 4, 1, 1 ) B( 4, 2, 3, 2 ) B( 6, 4, 3, 1 )
PROVE( block5523_f, blocks< 5, 5, 2, 3, float > ) PROVE( block5523_i, blocks< 5, 5, 2, 3, int > )
#define TS( M, N ) PROVE_T_ALL( transpose##M##N, transposes, M, N ) PROVE_T_ALL( rows##M##N, rows, M, N ) PROVE_T_ALL( columns##M##N, columns, M, N )
TS( 3, 8 )
#define TB( M, N, O, P ) PROVE_T_ALL( block##M##N##O##P, blocks, M, N, O, P )
 TB( 5, 6, 1, 4 )
static void canary() { Matrix< 2, 3, int > a; vc::sym( a ); const Matrix< 3, 2, int > t = transpose( a ); for( size_t i = 0; i < 6; ++i ) ENSURES( t.array[ i ] == a.array[ i ] ); }
REFUTE( transpose_copies, canary )
static void canary2() { Matrix< 3, 3, float > a; Vector< 3, float > v; vc::sym( a ); vc::sym( v ); auto o = vc::save( a ); const size_t k = vc_size( 0, 2 ); a.set_row( k, v ); ENSURES_EQ( a.array[ 3 ], o[ 3 ] ); }
REFUTE( row_untouched, canary2 )

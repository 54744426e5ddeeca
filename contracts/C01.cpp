// C01: all element accessors of a vector or matrix name the same storage
// VC-CONFIG-QUICK: release=-DNDEBUG; noconv=-DVMMLIB_NO_CONVERSION_OPERATORS
#include "vc.h"
#include <vmmlib/vector.hpp>
#include <vmmlib/matrix.hpp>
#include <iterator>
using namespace vmml;
#ifdef VMMLIB_NO_CONVERSION_OPERATORS   // the configuration without the pointer conversion
#define PTR( X ) ( X ).array
#define CPTR( X ) ( X ).array
#else
#define PTR( X ) static_cast< T* >( X )
#define CPTR( X ) static_cast< const T* >( X )
#endif

// writing x through LV changes exactly element k of obj; reading through it yields that element, changing nothing
#define WRITES( obj, n, k, LV ) \
    { auto o_ = vc::save( obj ); const T x_ = vc::any< T >(); LV = x_; \
      for( size_t q_ = 0; q_ < ( n ); ++q_ ) vc_check( obj.array[ q_ ] == ( q_ == ( k ) ? x_ : o_[ q_ ] ), "write " #LV " @" VC_STR( __LINE__ ) ); }
#define READS( obj, k, RV ) \
    { auto o_ = vc::save( obj ); const T x_ = RV; vc_check( x_ == o_[ k ], "read " #RV " @" VC_STR( __LINE__ ) ); UNCHANGED( obj, o_ ); }

template< size_t M, class T > void v_index()
{
    Vector< M, T > v; vc::sym( v );
    const Vector< M, T >& c = v;
    for( size_t i = 0; i < M; ++i )
    {
        READS( v, i, v.at( i ) ) READS( v, i, c.at( i ) ) READS( v, i, v( i ) ) READS( v, i, c( i ) )
        READS( v, i, v[ i ] ) READS( v, i, c[ i ] )
        READS( v, i, v.begin()[ i ] ) READS( v, i, c.begin()[ i ] )
        READS( v, i, *( v.end() - ( M - i ) ) ) READS( v, i, *( c.end() - ( M - i ) ) )
        READS( v, i, *( v.rbegin() + ( M - 1 - i ) ) ) READS( v, i, *( c.rbegin() + ( M - 1 - i ) ) )
        READS( v, i, *( v.rend() - ( i + 1 ) ) ) READS( v, i, *( c.rend() - ( i + 1 ) ) )
        READS( v, i, PTR( v )[ i ] ) READS( v, i, CPTR( c )[ i ] )
        WRITES( v, M, i, v.at( i ) ) WRITES( v, M, i, v( i ) ) WRITES( v, M, i, v[ i ] ) WRITES( v, M, i, v.begin()[ i ] )
        WRITES( v, M, i, *( v.rbegin() + ( M - 1 - i ) ) ) WRITES( v, M, i, PTR( v )[ i ] )
    }
    ENSURES( v.end() - v.begin() == ptrdiff_t( M ) );
    ENSURES( c.end() - c.begin() == ptrdiff_t( M ) );
    ENSURES( v.rend() - v.rbegin() == ptrdiff_t( M ) );
    ENSURES( c.rend() - c.rbegin() == ptrdiff_t( M ) );
    ENSURES( v.size() == M );
    ENSURES( ( Vector< M, T >::DIMENSION == M ) );
    ENSURES( sizeof( v ) == M * sizeof( T ) );
}
// the index is universally quantified as well
template< size_t M, class T > void v_any_index()
{
    Vector< M, T > v; vc::sym( v );
    const Vector< M, T >& c = v;
    const size_t i = vc_size( 0, M - 1 );
    auto o = vc::save( v );
    const T e = o.v[ i ];
    ENSURES( v.at( i ) == e ); ENSURES( c.at( i ) == e ); ENSURES( v( i ) == e ); ENSURES( c( i ) == e ); ENSURES( v[ i ] == e );
    const T x = vc::any< T >();
    v.at( i ) = x;
    for( size_t k = 0; k < M; ++k ) ENSURES( v.array[ k ] == ( k == i ? x : o[ k ] ) );
    const T y = vc::any< T >();
    v( i ) = y;
    for( size_t k = 0; k < M; ++k ) ENSURES( v.array[ k ] == ( k == i ? y : o[ k ] ) );
}
// full traversals in both directions visit every element once, in order
template< size_t M, class T > void v_traverse()
{
    Vector< M, T > v; vc::sym( v ); auto o = vc::save( v );
    const Vector< M, T >& c = v;
    size_t n = 0;
    for( typename Vector< M, T >::iterator it = v.begin(); it != v.end(); ++it, ++n ) { REQUIRES( n < M ); ENSURES( *it == o[ n ] ); }
    ENSURES( n == M ); n = 0;
    for( typename Vector< M, T >::const_iterator it = c.begin(); it != c.end(); ++it, ++n ) ENSURES( *it == o[ n ] );
    ENSURES( n == M ); n = 0;
    for( typename Vector< M, T >::reverse_iterator it = v.rbegin(); it != v.rend(); ++it, ++n ) ENSURES( *it == o[ M - 1 - n ] );
    ENSURES( n == M ); n = 0;
    for( typename Vector< M, T >::const_reverse_iterator it = c.rbegin(); it != c.rend(); ++it, ++n ) ENSURES( *it == o[ M - 1 - n ] );
    ENSURES( n == M );
    UNCHANGED( v, o );
}
template< size_t M, class T > void v_x() { Vector< M, T > v; vc::sym( v ); const Vector< M, T >& c = v;
    READS( v, 0, v.x() ) READS( v, 0, c.x() ) READS( v, 0, v.r() ) READS( v, 0, c.r() ) WRITES( v, M, 0, v.x() ) WRITES( v, M, 0, v.r() ) }
template< size_t M, class T > void v_y() { Vector< M, T > v; vc::sym( v ); const Vector< M, T >& c = v;
    READS( v, 1, v.y() ) READS( v, 1, c.y() ) READS( v, 1, v.g() ) READS( v, 1, c.g() ) WRITES( v, M, 1, v.y() ) WRITES( v, M, 1, v.g() ) }
template< size_t M, class T > void v_z() { Vector< M, T > v; vc::sym( v ); const Vector< M, T >& c = v;
    READS( v, 2, v.z() ) READS( v, 2, c.z() ) READS( v, 2, v.b() ) READS( v, 2, c.b() ) WRITES( v, M, 2, v.z() ) WRITES( v, M, 2, v.b() ) }
template< size_t M, class T > void v_w() { Vector< M, T > v; vc::sym( v ); const Vector< M, T >& c = v;
    READS( v, 3, v.w() ) READS( v, 3, c.w() ) READS( v, 3, v.a() ) READS( v, 3, c.a() ) WRITES( v, M, 3, v.w() ) WRITES( v, M, 3, v.a() ) }
template< size_t M, size_t N, class T > void v_sub()
{
    Vector< M, T > v; vc::sym( v );
    const Vector< M, T >& c = v;
    for( size_t off = 0; off + N <= M; ++off )
        for( size_t i = 0; i < N; ++i )
        {
            READS( v, off + i, v.template get_sub_vector< N >( off ).array[ i ] )
            READS( v, off + i, c.template get_sub_vector< N >( off ).array[ i ] )
            READS( v, off + i, v.template get_sub_vector< N >( off ).at( i ) )
            WRITES( v, M, off + i, v.template get_sub_vector< N >( off ).at( i ) )
        }
    for( size_t i = 0; i < N; ++i ) { READS( v, i, v.template get_sub_vector< N >().at( i ) ) READS( v, i, c.template get_sub_vector< N >().at( i ) ) }
}

template< size_t M, size_t N, class T > void m_index()
{
    Matrix< M, N, T > m; vc::sym( m );
    const Matrix< M, N, T >& c = m;
    for( size_t j = 0; j < N; ++j ) for( size_t i = 0; i < M; ++i )
    {
        const size_t k = j * M + i;
        READS( m, k, m.at( i, j ) ) READS( m, k, c.at( i, j ) ) READS( m, k, m( i, j ) ) READS( m, k, c( i, j ) )
        READS( m, k, m[ i ][ j ] ) READS( m, k, m[ int( i ) ][ j ] )
        READS( m, k, m.begin()[ k ] ) READS( m, k, c.begin()[ k ] )
        READS( m, k, *( m.end() - ( M * N - k ) ) ) READS( m, k, *( c.end() - ( M * N - k ) ) )
        READS( m, k, *( m.rbegin() + ( M * N - 1 - k ) ) ) READS( m, k, *( c.rbegin() + ( M * N - 1 - k ) ) )
        READS( m, k, *( m.rend() - ( k + 1 ) ) ) READS( m, k, *( c.rend() - ( k + 1 ) ) )
        READS( m, k, PTR( m )[ k ] ) READS( m, k, CPTR( c )[ k ] )
        { const typename Matrix< M, N, T >::row_accessor r = m[ i ]; READS( m, k, r[ j ] ) }
        WRITES( m, M * N, k, m.at( i, j ) ) WRITES( m, M * N, k, m( i, j ) ) WRITES( m, M * N, k, m[ i ][ j ] )
        WRITES( m, M * N, k, m[ int( i ) ][ j ] ) WRITES( m, M * N, k, m.begin()[ k ] )
        WRITES( m, M * N, k, *( m.rbegin() + ( M * N - 1 - k ) ) ) WRITES( m, M * N, k, PTR( m )[ k ] )
    }
    ENSURES( m.end() - m.begin() == ptrdiff_t( M * N ) );
    ENSURES( c.end() - c.begin() == ptrdiff_t( M * N ) );
    ENSURES( m.rend() - m.rbegin() == ptrdiff_t( M * N ) );
    ENSURES( c.rend() - c.rbegin() == ptrdiff_t( M * N ) );
    ENSURES( m.size() == M * N );
    ENSURES( m.get_number_of_rows() == M );
    ENSURES( m.get_number_of_columns() == N );
    ENSURES( ( Matrix< M, N, T >::ROWS == M ) ); ENSURES( ( Matrix< M, N, T >::COLS == N ) );
    ENSURES( sizeof( m ) == M * N * sizeof( T ) );
}
template< size_t M, size_t N, class T > void m_any_index()
{
    Matrix< M, N, T > m; vc::sym( m );
    const Matrix< M, N, T >& c = m;
    const size_t i = vc_size( 0, M - 1 ), j = vc_size( 0, N - 1 ), k = j * M + i;
    auto o = vc::save( m );
    const T e = o.v[ k ];
    ENSURES( m.at( i, j ) == e ); ENSURES( c.at( i, j ) == e ); ENSURES( m( i, j ) == e ); ENSURES( c( i, j ) == e ); ENSURES( m[ i ][ j ] == e );
    const T x = vc::any< T >(); m.at( i, j ) = x;
    for( size_t q = 0; q < M * N; ++q ) ENSURES( m.array[ q ] == ( q == k ? x : o[ q ] ) );
    const T y = vc::any< T >(); m[ i ][ j ] = y;
    for( size_t q = 0; q < M * N; ++q ) ENSURES( m.array[ q ] == ( q == k ? y : o[ q ] ) );
    const T z = vc::any< T >(); m( i, j ) = z;
    for( size_t q = 0; q < M * N; ++q ) ENSURES( m.array[ q ] == ( q == k ? z : o[ q ] ) );
}
// translation shortcuts of a matrix with at least three rows: first elements of the column M-1
template< size_t M, size_t N, class T > void m_xyz()
{
    Matrix< M, N, T > m; vc::sym( m );
    READS( m, 12, m.x() ) READS( m, 13, m.y() ) READS( m, 14, m.z() )
    WRITES( m, M * N, 12, m.x() ) WRITES( m, M * N, 13, m.y() ) WRITES( m, M * N, 14, m.z() )
}

#define V( M ) PROVE_ALL( v_index##M, v_index, M ) PROVE_ALL( v_traverse##M, v_traverse, M ) PROVE( v_any_index##M##_f, v_any_index< M, float > ) \
    PROVE( v_any_index##M##_u, v_any_index< M, unsigned > ) PROVE_ALL( v_x##M, v_x, M )
V( 1 ) V( 2 ) V( 3 ) V( 4 ) V( 5 ) V( 6 ) V( 7 ) V( 8 ) V( 9 ) V( 16 ) V( 17 )
PROVE_T_ALL( v_index12, v_index, 12 )
PROVE_ALL( v_y2, v_y, 2 ) PROVE_ALL( v_y3, v_y, 3 ) PROVE_ALL( v_y4, v_y, 4 ) PROVE_FD( v_y5, v_y, 5 )
PROVE_ALL( v_z3, v_z, 3 ) PROVE_ALL( v_z4, v_z, 4 ) PROVE_FD( v_z5, v_z, 5 )
PROVE_ALL( v_w4, v_w, 4 ) PROVE_FD( v_w5, v_w, 5 )
PROVE_ALL( v_sub4_3, v_sub, 4, 3 ) PROVE_ALL( v_sub4_2, v_sub, 4, 2 ) PROVE_FD( v_sub3_2, v_sub, 3, 2 ) PROVE_FD( v_sub5_3, v_sub, 5, 3 )
PROVE_FD( v_sub4_4, v_sub, 4, 4 ) PROVE_FD( v_sub4_1, v_sub, 4, 1 ) PROVE_I( v_sub9_4, v_sub, 9, 4 )

#define MM( M, N ) PROVE_FD( m_index##M##N, m_index, M, N ) PROVE( m_index##M##N##_i, m_index< M, N, int > )
MM( 1, 1 ) MM( 1, 4 ) MM( 4, 1 ) MM( 2, 2 ) MM( 2, 3 ) MM( 3, 2 ) MM( 3, 3 ) MM( 3, 4 ) MM( 4, 3 ) MM( 4, 4 ) MM( 5, 3 ) MM( 2, 5 ) MM( 5, 5 ) MM( 6, 6 ) MM( 3, 7 ) MM( 8, 2 )
PROVE_I( m_index54, m_index, 5, 4 )
PROVE_T_ALL( m_index57, m_index, 5, 7 )
PROVE( m_any_index23, m_any_index< 2, 3, float > ) PROVE( m_any_index32, m_any_index< 3, 2, double > ) PROVE( m_any_index44, m_any_index< 4, 4, float > )
PROVE( m_any_index34i, m_any_index< 3, 4, int > )
PROVE_ALL( m_xyz44, m_xyz, 4, 4 )

static void canary_v() { typedef float T; Vector< 3, T > v; vc::sym( v ); READS( v, 1, v.at( 2 ) ) }
REFUTE( v_wrong_index, canary_v )
static void canary_m() { typedef double T; Matrix< 2, 3, T > m; vc::sym( m ); WRITES( m, 6, 2 * 0 + 1, m.at( 0, 1 ) ) }
REFUTE( m_row_major, canary_m )

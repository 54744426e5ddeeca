// C02: out-of-range accesses are rejected and never touch memory outside objects
// VC-CONFIG-QUICK: release=-DNDEBUG
#include "vc.h"
#include <vmmlib/vector.hpp>
#include <vmmlib/matrix.hpp>
#include <vector>
using namespace vmml;

#define THROWS( X ) { bool th_ = false; try { X; } catch( ... ) { th_ = true; } vc_check( th_, "error raised by " #X " @" VC_STR( __LINE__ ) ); }
#define ACCEPTS( X ) { bool th_ = false; try { X; } catch( ... ) { th_ = true; } vc_check( !th_, "no error from " #X " @" VC_STR( __LINE__ ) ); }

#ifndef NDEBUG
// ---- rejected: any index outside the object
template< size_t M, class T > void v_bad()
{
    Vector< M, T > v; vc::sym( v ); auto o = vc::save( v ); const Vector< M, T >& c = v;
    const size_t i = vc_size( M, size_t( -1 ) ); const T x = vc::any< T >(); T y = x;
    THROWS( v.at( i ) = x ) THROWS( v( i ) = x ) THROWS( y = v.at( i ) ) THROWS( y = c.at( i ) ) THROWS( y = v( i ) ) THROWS( y = c( i ) )
    UNCHANGED( v, o ); ENSURES( y == x );
}
// a part of a vector that does not fit ends the program (assertion)
template< size_t M, size_t N, class T > void v_bad_part()
{
    Vector< M, T > v; vc::sym( v ); auto o = vc::save( v ); const Vector< M, T >& c = v;
    const size_t i = vc_size( 0, size_t( -1 ) ); const bool fits = i <= M - N, k = vc::any< bool >();
    if( fits ) { const Vector< N, T >& p = k ? v.template get_sub_vector< N >( i ) : c.template get_sub_vector< N >( i ); for( size_t j = 0; j < N; ++j ) ENSURES( p.array[ j ] == o[ i + j ] ); }
    else
    {
        vc_stops( true );
        if( k ) v.template get_sub_vector< N >( i ); else c.template get_sub_vector< N >( i );
        vc_stops( false );
        vc_check( false, "a sub-vector that does not fit is refused @" VC_STR( __LINE__ ) );
    }
    UNCHANGED( v, o );
}
template< size_t M, size_t N, class T > void m_bad()
{
    Matrix< M, N, T > m; vc::sym( m ); auto o = vc::save( m ); const Matrix< M, N, T >& c = m;
    const size_t i = vc_size( 0, size_t( -1 ) ), j = vc_size( 0, size_t( -1 ) );
    const T x = vc::any< T >(); T y = x;
    REQUIRES( i >= M || j >= N );
    THROWS( m.at( i, j ) = x ) THROWS( m( i, j ) = x ) THROWS( y = m.at( i, j ) ) THROWS( y = c.at( i, j ) )
    THROWS( y = m( i, j ) ) THROWS( y = c( i, j ) ) THROWS( m[ i ][ j ] = x ) THROWS( y = m[ i ][ j ] )
    UNCHANGED( m, o ); ENSURES( y == x );
}
template< size_t M, size_t N, class T > void m_bad_subscript()
{
    Matrix< M, N, T > m; vc::sym( m ); auto o = vc::save( m ); const T x = vc::any< T >(); T y = x;
    const size_t i = vc_size( M, size_t( -1 ) ), j = vc_size( N, size_t( -1 ) );
    const int k = vc::any< int >(); REQUIRES( k < 0 || k >= int( M ) );
    THROWS( m[ i ] ) THROWS( m[ k ] ) THROWS( m[ i ][ 0 ] = x ) THROWS( m[ 0 ][ j ] = x ) THROWS( m[ M - 1 ][ j ] = x ) THROWS( y = m[ k ][ 0 ] )
    { const typename Matrix< M, N, T >::row_accessor r = m[ M - 1 ]; THROWS( y = r[ j ] ) }
    UNCHANGED( m, o ); ENSURES( y == x );
}
template< size_t M, size_t N, class T > void m_bad_rowcol()
{
    Matrix< M, N, T > m; vc::sym( m ); auto o = vc::save( m ); const Matrix< M, N, T >& c = m;
    const size_t i = vc_size( M, size_t( -1 ) ), j = vc_size( N, size_t( -1 ) );
    Vector< M, T > vc_; vc::sym( vc_ ); auto ovc = vc::save( vc_ ); Vector< N, T > vr; vc::sym( vr ); auto ovr = vc::save( vr );
    Matrix< M, 1, T > mc; vc::sym( mc ); auto omc = vc::save( mc ); Matrix< 1, N, T > mr; vc::sym( mr ); auto omr = vc::save( mr );
    THROWS( c.get_row( i, vr ) ) THROWS( c.get_row( i, mr ) ) THROWS( vr = c.get_row( i ) )
    THROWS( c.get_column( j, vc_ ) ) THROWS( c.get_column( j, mc ) ) THROWS( vc_ = c.get_column( j ) )
    THROWS( m.set_row( i, vr ) ) THROWS( m.set_row( i, mr ) ) THROWS( m.set_column( j, vc_ ) ) THROWS( m.set_column( j, mc ) )
    UNCHANGED( m, o ); UNCHANGED( vc_, ovc ); UNCHANGED( vr, ovr ); UNCHANGED( mc, omc ); UNCHANGED( mr, omr );
}
template< size_t M, size_t N, size_t O, size_t P, class T > void m_bad_sub()
{
    Matrix< M, N, T > m; vc::sym( m ); auto o = vc::save( m ); const Matrix< M, N, T >& c = m;
    Matrix< O, P, T > s; vc::sym( s ); auto os = vc::save( s );
    const size_t i = vc_size( 0, size_t( -1 ) ), j = vc_size( 0, size_t( -1 ) );
    REQUIRES( i > M - O || j > N - P );
    THROWS( c.get_sub_matrix( s, i, j ) ) THROWS( ( s = c.template get_sub_matrix< O, P >( i, j ) ) ) THROWS( m.set_sub_matrix( s, i, j ) )
    UNCHANGED( m, o ); UNCHANGED( s, os );
}
template< size_t M, class T > void m_bad_minor()
{
    Matrix< M, M, T > m; vc::sym( m ); auto o = vc::save( m ); const Matrix< M, M, T >& c = m;
    Matrix< M - 1, M - 1, T > s; vc::sym( s ); auto os = vc::save( s );
    const size_t i = vc_size( 0, size_t( -1 ) ), j = vc_size( 0, size_t( -1 ) );
    REQUIRES( i >= M || j >= M );
    THROWS( c.get_minor( s, i, j ) )
    UNCHANGED( m, o ); UNCHANGED( s, os );
}
// a std::vector that is too short is refused before anything is written
template< size_t M, size_t N, class T > void m_bad_stdvec()
{
    for( size_t L = 0; L < M * N; ++L )
    {
        Matrix< M, N, T > m; vc::sym( m ); auto o = vc::save( m );
        std::vector< T > d( L );
        for( size_t k = 0; k < L; ++k ) d[ k ] = vc::any< T >();
        THROWS( m = d )
        UNCHANGED( m, o );
    }
}
#define VB( M ) PROVE_FD( v_bad##M, v_bad, M ) PROVE_I( v_bad##M, v_bad, M )
VB( 1 ) VB( 2 ) VB( 3 ) VB( 4 ) VB( 5 ) VB( 8 ) VB( 16 )
#define MB( M, N ) PROVE_FD( m_bad##M##N, m_bad, M, N ) PROVE_FD( m_bad_subscript##M##N, m_bad_subscript, M, N ) PROVE_FD( m_bad_rowcol##M##N, m_bad_rowcol, M, N ) \
    PROVE( m_bad##M##N##_i, m_bad< M, N, int > ) PROVE( m_bad_rowcol##M##N##_b, m_bad_rowcol< M, N, uint8_t > ) PROVE( m_bad_subscript##M##N##_i, m_bad_subscript< M, N, int > )
MB( 1, 1 ) MB( 1, 3 ) MB( 3, 1 ) MB( 2, 2 ) MB( 2, 3 ) MB( 3, 2 ) MB( 3, 3 ) MB( 4, 4 ) MB( 3, 4 ) MB( 4, 3 ) MB( 2, 5 ) MB( 6, 3 )
PROVE_FD( m_bad_sub2211, m_bad_sub, 2, 2, 1, 1 ) PROVE_FD( m_bad_sub3322, m_bad_sub, 3, 3, 2, 2 ) PROVE( m_bad_sub3432, m_bad_sub< 3, 4, 3, 2, double > )
PROVE( m_bad_sub4433, m_bad_sub< 4, 4, 3, 3, float > ) PROVE_T_FD( m_bad_sub4444, m_bad_sub, 4, 4, 4, 4 ) PROVE_FD( m_bad_sub2521, m_bad_sub, 2, 5, 2, 1 )
PROVE( m_bad_sub4514, m_bad_sub< 4, 5, 1, 4, double > ) PROVE_I( m_bad_sub3322, m_bad_sub, 3, 3, 2, 2 )
PROVE( m_bad_stdvec22, m_bad_stdvec< 2, 2, float > ) PROVE( m_bad_stdvec23, m_bad_stdvec< 2, 3, double > ) PROVE( m_bad_stdvec31, m_bad_stdvec< 3, 1, int > )
PROVE_FD( m_bad_minor2, m_bad_minor, 2 ) PROVE_FD( m_bad_minor3, m_bad_minor, 3 ) PROVE_FD( m_bad_minor4, m_bad_minor, 4 ) PROVE( m_bad_minor3_i, m_bad_minor< 3, int > )
#define VP( M, N ) PROVE_FD( v_bad_part##M##N, v_bad_part, M, N ) PROVE_I( v_bad_part##M##N, v_bad_part, M, N )
VP( 2, 2 ) VP( 3, 2 ) VP( 3, 1 ) VP( 4, 3 ) VP( 4, 2 ) VP( 5, 4 ) VP( 7, 3 )
#endif

// ---- accepted: any index that fits
template< size_t M, class T > void v_ok()
{
    Vector< M, T > v; vc::sym( v ); const Vector< M, T >& c = v;
    const size_t i = vc_size( 0, M - 1 ); T y = T();
    ACCEPTS( v.at( i ) = y ) ACCEPTS( v( i ) = y ) ACCEPTS( y = v.at( i ) ) ACCEPTS( y = c.at( i ) ) ACCEPTS( y = v( i ) ) ACCEPTS( y = c( i ) )
}
template< size_t M, size_t N, class T > void m_ok()
{
    Matrix< M, N, T > m; vc::sym( m ); const Matrix< M, N, T >& c = m;
    const size_t i = vc_size( 0, M - 1 ), j = vc_size( 0, N - 1 ); T y = T();
    ACCEPTS( m.at( i, j ) = y ) ACCEPTS( m( i, j ) = y ) ACCEPTS( y = m.at( i, j ) ) ACCEPTS( y = c.at( i, j ) ) ACCEPTS( y = m( i, j ) ) ACCEPTS( y = c( i, j ) )
    ACCEPTS( m[ i ][ j ] = y ) ACCEPTS( y = m[ i ][ j ] ) ACCEPTS( y = m[ int( i ) ][ j ] )
    { const typename Matrix< M, N, T >::row_accessor r = m[ i ]; ACCEPTS( y = r[ j ] ) }
}
template< size_t M, size_t N, class T > void m_ok_rowcol()
{
    Matrix< M, N, T > m; vc::sym( m ); const Matrix< M, N, T >& c = m;
    Vector< M, T > cv; Vector< N, T > rv; Matrix< M, 1, T > cm; Matrix< 1, N, T > rm; vc::sym( cv ); vc::sym( rv ); vc::sym( cm ); vc::sym( rm );
    const size_t i = vc_size( 0, M - 1 ), j = vc_size( 0, N - 1 );
    ACCEPTS( c.get_row( i, rv ) ) ACCEPTS( c.get_row( i, rm ) ) ACCEPTS( rv = c.get_row( i ) )
    ACCEPTS( c.get_column( j, cv ) ) ACCEPTS( c.get_column( j, cm ) ) ACCEPTS( cv = c.get_column( j ) )
    ACCEPTS( m.set_row( i, rv ) ) ACCEPTS( m.set_row( i, rm ) ) ACCEPTS( m.set_column( j, cv ) ) ACCEPTS( m.set_column( j, cm ) )
}
template< size_t M, class T > void m_ok_minor()
{
    Matrix< M, M, T > m; vc::sym( m ); const Matrix< M, M, T >& c = m; Matrix< M - 1, M - 1, T > s; vc::sym( s );
    const size_t i = vc_size( 0, M - 1 ), j = vc_size( 0, M - 1 );
    ACCEPTS( c.get_minor( s, i, j ) )
}
template< size_t M, size_t N, size_t O, size_t P, class T > void m_ok_sub()
{
    Matrix< M, N, T > m; vc::sym( m ); const Matrix< M, N, T >& c = m; Matrix< O, P, T > s; vc::sym( s );
    const size_t i = vc_size( 0, M - O ), j = vc_size( 0, N - P );
    ACCEPTS( c.get_sub_matrix( s, i, j ) ) ACCEPTS( ( s = c.template get_sub_matrix< O, P >( i, j ) ) ) ACCEPTS( m.set_sub_matrix( s, i, j ) )
    ACCEPTS( c.get_sub_matrix( s ) ) ACCEPTS( m.set_sub_matrix( s ) )
}
#define VO( M ) PROVE_FD( v_ok##M, v_ok, M ) PROVE_I( v_ok##M, v_ok, M )
VO( 1 ) VO( 2 ) VO( 3 ) VO( 4 ) VO( 5 ) VO( 8 ) VO( 16 )
#define MO( M, N ) PROVE_FD( m_ok##M##N, m_ok, M, N ) PROVE_FD( m_ok_rowcol##M##N, m_ok_rowcol, M, N ) PROVE( m_ok_rowcol##M##N##_i, m_ok_rowcol< M, N, int > )
MO( 1, 1 ) MO( 1, 3 ) MO( 3, 1 ) MO( 2, 2 ) MO( 2, 3 ) MO( 3, 2 ) MO( 3, 3 ) MO( 4, 4 ) MO( 3, 4 ) MO( 4, 3 ) MO( 2, 5 ) MO( 6, 3 )
PROVE_FD( m_ok_minor2, m_ok_minor, 2 ) PROVE_FD( m_ok_minor3, m_ok_minor, 3 ) PROVE_FD( m_ok_minor4, m_ok_minor, 4 ) PROVE( m_ok_minor3_i, m_ok_minor< 3, int > )
PROVE_FD( m_ok_sub2211, m_ok_sub, 2, 2, 1, 1 ) PROVE_FD( m_ok_sub3322, m_ok_sub, 3, 3, 2, 2 ) PROVE_FD( m_ok_sub3432, m_ok_sub, 3, 4, 3, 2 )
PROVE_FD( m_ok_sub4433, m_ok_sub, 4, 4, 3, 3 ) PROVE_FD( m_ok_sub4444, m_ok_sub, 4, 4, 4, 4 ) PROVE_FD( m_ok_sub2521, m_ok_sub, 2, 5, 2, 1 )
PROVE_I( m_ok_sub3322, m_ok_sub, 3, 3, 2, 2 )

// ---- sequences: exactly the given elements are read (the verifier checks every memory access against the object bounds)
template< size_t M, class T > void v_seq()
{
    T a[ M ]; vc::sym( a );
    Vector< M, T > v( a );
    Vector< M, T > w; vc::sym( w );
    w = static_cast< const T* >( a );
    for( size_t i = 0; i < M; ++i ) { ENSURES( v.array[ i ] == a[ i ] ); ENSURES( w.array[ i ] == a[ i ] ); }
}
template< size_t M, size_t L, class T > void v_iter()
{
    T a[ L + 1 ]; vc::sym( a ); // the last element lies outside of the given sequence
    Vector< M, T > v; vc::sym( v ); auto o = vc::save( v );
    std::vector< T > s( a, a + L );
    v.iter_set( s.begin(), s.end() );
    for( size_t i = 0; i < M; ++i ) ENSURES( v.array[ i ] == ( i < L ? a[ i ] : o[ i ] ) );
}
template< size_t M, size_t N, size_t L, class T > void m_seq()
{
    T a[ L + 1 ]; vc::sym( a );
    Matrix< M, N, T > m; vc::sym( m ); auto o = vc::save( m );
    std::vector< T > s( a, a + L );
    Matrix< M, N, T > r( m );
    m.set( s.begin(), s.end(), true );
    for( size_t i = 0; i < M; ++i ) for( size_t j = 0; j < N; ++j )
        ENSURES( m.array[ j * M + i ] == ( i * N + j < L ? a[ i * N + j ] : o[ j * M + i ] ) );
    r.set( s.begin(), s.end(), false );
    for( size_t k = 0; k < M * N; ++k ) ENSURES( r.array[ k ] == ( k < L ? a[ k ] : o[ k ] ) );
}
template< size_t M, size_t N, class T > void m_carray()
{
    T a[ M * N ]; vc::sym( a );
    Matrix< M, N, T > m; vc::sym( m );
    ACCEPTS( m = static_cast< const T* >( a ) )
    for( size_t i = 0; i < M; ++i ) for( size_t j = 0; j < N; ++j ) ENSURES( m.array[ j * M + i ] == a[ i * N + j ] );
    for( size_t L = M * N; L < M * N + 2; ++L )
    {
        std::vector< T > s( L );
        for( size_t k = 0; k < L; ++k ) s[ k ] = vc::any< T >();
        Matrix< M, N, T > r; vc::sym( r );
        ACCEPTS( r = s )
        for( size_t i = 0; i < M; ++i ) for( size_t j = 0; j < N; ++j ) ENSURES( r.array[ j * M + i ] == s[ i * N + j ] );
    }
}
PROVE_ALL( v_seq1, v_seq, 1 ) PROVE_ALL( v_seq3, v_seq, 3 ) PROVE_ALL( v_seq4, v_seq, 4 ) PROVE_FD( v_seq5, v_seq, 5 ) PROVE_FD( v_seq9, v_seq, 9 )
PROVE_FD( v_iter30, v_iter, 3, 0 ) PROVE_FD( v_iter31, v_iter, 3, 1 ) PROVE_FD( v_iter32, v_iter, 3, 2 ) PROVE_FD( v_iter33, v_iter, 3, 3 ) PROVE_FD( v_iter34, v_iter, 3, 4 )
PROVE_FD( v_iter43, v_iter, 4, 3 ) PROVE_FD( v_iter44, v_iter, 4, 4 ) PROVE_FD( v_iter45, v_iter, 4, 5 ) PROVE_I( v_iter42, v_iter, 4, 2 ) PROVE_I( v_iter46, v_iter, 4, 6 )
PROVE_FD( m_seq220, m_seq, 2, 2, 0 ) PROVE_FD( m_seq221, m_seq, 2, 2, 1 ) PROVE_FD( m_seq223, m_seq, 2, 2, 3 ) PROVE_FD( m_seq224, m_seq, 2, 2, 4 ) PROVE_FD( m_seq225, m_seq, 2, 2, 5 )
PROVE_FD( m_seq230, m_seq, 2, 3, 0 ) PROVE_FD( m_seq232, m_seq, 2, 3, 2 ) PROVE_FD( m_seq234, m_seq, 2, 3, 4 ) PROVE_FD( m_seq235, m_seq, 2, 3, 5 ) PROVE_FD( m_seq236, m_seq, 2, 3, 6 ) PROVE_FD( m_seq237, m_seq, 2, 3, 7 )
PROVE_FD( m_seq324, m_seq, 3, 2, 4 ) PROVE_FD( m_seq326, m_seq, 3, 2, 6 ) PROVE_FD( m_seq4415, m_seq, 4, 4, 15 ) PROVE_FD( m_seq4416, m_seq, 4, 4, 16 ) PROVE_FD( m_seq4418, m_seq, 4, 4, 18 )
PROVE_I( m_seq235, m_seq, 2, 3, 5 ) PROVE_I( m_seq337, m_seq, 3, 3, 7 ) PROVE_FD( m_seq3411, m_seq, 3, 4, 11 ) PROVE_FD( m_seq434, m_seq, 4, 3, 4 ) PROVE_FD( m_seq118, m_seq, 1, 1, 1 )
PROVE_FD( m_carray22, m_carray, 2, 2 ) PROVE_FD( m_carray23, m_carray, 2, 3 ) PROVE_FD( m_carray32, m_carray, 3, 2 ) PROVE_FD( m_carray44, m_carray, 4, 4 ) PROVE_I( m_carray34, m_carray, 3, 4 )
PROVE_FD( m_carray15, m_carray, 1, 5 ) PROVE_FD( m_carray31, m_carray, 3, 1 )

#ifndef NDEBUG
static void canary() { Matrix< 2, 3, float > m; vc::sym( m ); const size_t i = vc_size( 1, size_t( -1 ) ); THROWS( m.at( i, 0 ) = 1 ) }
REFUTE( bound_off_by_one, canary )
#endif
static void canary2() { Vector< 3, float > m; vc::sym( m ); const size_t i = vc_size( 0, 3 ); ACCEPTS( m.array[ i ] = 1 ) }
REFUTE( write_past_end, canary2 )

// C03: construction, conversion, copying and assignment preserve every element
// VC-CONFIG-QUICK: release=-DNDEBUG; osg=-D__OSG_MATH
#include "vc.h"
#include <vmmlib/vector.hpp>
#include <vmmlib/matrix.hpp>
#include <vector>
using namespace vmml;
#ifdef __OSG_MATH
// OpenSceneGraph's vectors: anything with x(), y() and z()
template< class U > struct Foreign { U v[ 3 ]; U x() const { return v[ 0 ]; } U y() const { return v[ 1 ]; } U z() const { return v[ 2 ]; } };
template< class T, class U > void v_foreign()
{
    Foreign< U > f; for( U& e : f.v ) e = vc::any< U >(); const Foreign< U > o( f ), &cf = f; const Vector< 3, T > v( cf );
    for( size_t i = 0; i < 3; ++i ) { vc_check( v.array[ i ] == T( o.v[ i ] ), "component" ); vc_check( f.v[ i ] == o.v[ i ], "source unchanged" ); }
}
PROVE( v_foreign_f, v_foreign< float, float > ) PROVE( v_foreign_d, v_foreign< double, double > ) PROVE( v_foreign_df, v_foreign< double, float > ) PROVE( v_foreign_i, v_foreign< int, int > )
#else

template< class T > struct In { static T any() { return vc::any< T >(); } };
#define ISV( v, i, x ) vc_check( ( v ).array[ i ] == T( x ), #v "[" #i "] == " #x " @" VC_STR( __LINE__ ) )
// values of U that any target type of the contract can represent
template< class T, class U > U conv() { const U x0 = vc::any< U >(), x = !vc_random() ? x0 : x0 < U( 0 ) ? U( -x0 ) : x0 > U( 100 ) ? U( 100 ) : x0; REQUIRES( x >= U( 0 ) && x <= U( 100 ) ); return x; }

// ---------------------------------------------------------------- vectors
template< size_t M, class T > void v_ctor()
{
    const T a = vc::any< T >();
    Vector< M, T > z; for( size_t i = 0; i < M; ++i ) ISV( z, i, 0 );
    Vector< M, T > f( a ); for( size_t i = 0; i < M; ++i ) ISV( f, i, a );
    const Vector< M, T > c( f ); for( size_t i = 0; i < M; ++i ) ISV( c, i, a );
    Vector< M, T > s; vc::sym( s ); auto o = vc::save( s );
    Vector< M, T > d( s ); for( size_t i = 0; i < M; ++i ) ISV( d, i, o[ i ] );
    Vector< M, T > e; vc::sym( e ); Vector< M, T >& r = ( e = s );
    ENSURES( &r == &e ); for( size_t i = 0; i < M; ++i ) ISV( e, i, o[ i ] );
    UNCHANGED( s, o );
    Vector< M, T >& self = s; s = self; UNCHANGED( s, o );
    T raw[ M ]; vc::sym( raw ); auto oraw = vc::save( raw );
    Vector< M, T > p( raw ); for( size_t i = 0; i < M; ++i ) ISV( p, i, oraw[ i ] );
    vc::sym( p ); Vector< M, T >& pr = ( p = static_cast< const T* >( raw ) ); ENSURES( &pr == &p );
    for( size_t i = 0; i < M; ++i ) { ISV( p, i, oraw[ i ] ); ENSURES( raw[ i ] == oraw[ i ] ); }
    const T b = vc::any< T >(); const T ret = ( p = b ); ENSURES( ret == b ); for( size_t i = 0; i < M; ++i ) ISV( p, i, b );
    const T g = vc::any< T >(); p.set( g ); for( size_t i = 0; i < M; ++i ) ISV( p, i, g );
}
template< class T > void v_components()
{
    const T x = vc::any< T >(), y = vc::any< T >(), z = vc::any< T >(), w = vc::any< T >();
    { Vector< 2, T > v( x, y ); ISV( v, 0, x ); ISV( v, 1, y ); }
    { Vector< 3, T > v( x, y, z ); ISV( v, 0, x ); ISV( v, 1, y ); ISV( v, 2, z ); }
    { Vector< 4, T > v( x, y, z, w ); ISV( v, 0, x ); ISV( v, 1, y ); ISV( v, 2, z ); ISV( v, 3, w ); }
}
// partial sets change the first components only
template< size_t M, class T > void v_set2() { const T x = vc::any< T >(), y = vc::any< T >();
    Vector< M, T > v; vc::sym( v ); auto o = vc::save( v ); v.set( x, y ); ISV( v, 0, x ); ISV( v, 1, y ); for( size_t i = 2; i < M; ++i ) ISV( v, i, o[ i ] ); }
template< size_t M, class T > void v_set3() { const T x = vc::any< T >(), y = vc::any< T >(), z = vc::any< T >();
    Vector< M, T > v; vc::sym( v ); auto o = vc::save( v ); v.set( x, y, z ); ISV( v, 0, x ); ISV( v, 1, y ); ISV( v, 2, z ); for( size_t i = 3; i < M; ++i ) ISV( v, i, o[ i ] ); }
template< size_t M, class T > void v_set4() { const T x = vc::any< T >(), y = vc::any< T >(), z = vc::any< T >(), w = vc::any< T >();
    Vector< M, T > v; vc::sym( v ); auto o = vc::save( v ); v.set( x, y, z, w ); ISV( v, 0, x ); ISV( v, 1, y ); ISV( v, 2, z ); ISV( v, 3, w ); for( size_t i = 4; i < M; ++i ) ISV( v, i, o[ i ] ); }
// the given values may be references to the vector's own components
template< class T > void v_own()
{
    Vector< 2, T > a; vc::sym( a ); auto oa = vc::save( a ); a.set( a.array[ 1 ], a.array[ 0 ] ); ISV( a, 0, oa[ 1 ] ); ISV( a, 1, oa[ 0 ] );
    Vector< 3, T > b; vc::sym( b ); auto ob = vc::save( b ); b.set( b.array[ 2 ], b.array[ 0 ], b.array[ 1 ] ); for( size_t i = 0; i < 3; ++i ) ISV( b, i, ob[ ( i + 2 ) % 3 ] );
    Vector< 4, T > c; vc::sym( c ); auto oc = vc::save( c ); c.set( c.array[ 3 ], c.array[ 0 ], c.array[ 1 ], c.array[ 2 ] ); for( size_t i = 0; i < 4; ++i ) ISV( c, i, oc[ ( i + 3 ) % 4 ] );
    c.set( c.array[ 1 ] ); for( size_t i = 0; i < 4; ++i ) ISV( c, i, oc[ 0 ] );
    b = b.array[ 1 ]; for( size_t i = 0; i < 3; ++i ) ISV( b, i, ob[ 0 ] );
    Matrix< 3, 2, T > m; vc::sym( m ); auto om = vc::save( m ); m.fill( m.array[ 2 ] ); for( size_t i = 0; i < 6; ++i ) ISV( m, i, om[ 2 ] );
    Matrix< 2, 3, T > n; vc::sym( n ); auto on = vc::save( n ); n = n.array[ 3 ]; for( size_t i = 0; i < 6; ++i ) ISV( n, i, on[ 3 ] );
    n = n; m = m; for( size_t i = 0; i < 6; ++i ) { ISV( n, i, on[ 3 ] ); ISV( m, i, om[ 2 ] ); }
}
// neighbouring dimension
template< size_t M, class T > void v_append()
{
    Vector< M - 1, T > s; vc::sym( s ); auto o = vc::save( s ); const T a = vc::any< T >();
    const Vector< M, T > v( s, a );
    Vector< M, T > w; vc::sym( w ); w.set( s, a );
    for( size_t i = 0; i < M; ++i ) { ISV( v, i, i < M - 1 ? o[ i ] : a ); ISV( w, i, i < M - 1 ? o[ i ] : a ); }
    UNCHANGED( s, o );
}
template< size_t M, class T > void v_homogeneous()
{
    Vector< M - 1, T > s; vc::sym( s ); auto o = vc::save( s );
    const Vector< M, T > v( s ); Vector< M, T > w; vc::sym( w ); w = s;
    for( size_t i = 0; i < M; ++i ) { ISV( v, i, i < M - 1 ? o[ i ] : T( 1 ) ); ISV( w, i, i < M - 1 ? o[ i ] : T( 1 ) ); }
    UNCHANGED( s, o );
    Vector< M, T > h; vc::sym( h ); auto oh = vc::save( h ); REQUIRES( oh[ M - 1 ] != T( 0 ) );
    const Vector< M - 1, T > p( h ); Vector< M - 1, T > q; vc::sym( q ); q = h;
    for( size_t i = 0; i < M - 1; ++i ) { ENSURES_EQ( p.array[ i ] * oh[ M - 1 ], oh[ i ] ); ENSURES_EQ( q.array[ i ] * oh[ M - 1 ], oh[ i ] ); }
    UNCHANGED( h, oh );
}
template< size_t M, size_t N, class T > void v_set_other()
{
    Vector< N, T > s; vc::sym( s ); auto os = vc::save( s );
    Vector< M, T > v; vc::sym( v ); auto o = vc::save( v );
    v.template set< N >( s );
    for( size_t i = 0; i < M; ++i ) ISV( v, i, i < N ? os[ i ] : o[ i ] );
    UNCHANGED( s, os );
}
template< size_t M, class T, class U > void v_convert()
{
    Vector< M, U > s; for( size_t i = 0; i < M; ++i ) s.array[ i ] = conv< T, U >(); auto os = vc::save( s );
    const Vector< M, T > a( s ); Vector< M, T > b, c, d; vc::sym( b ); vc::sym( c ); vc::sym( d ); b = s; c.cast_from( s ); d.iter_set( s.array, s.array + M );
    for( size_t i = 0; i < M; ++i ) { ISV( a, i, os[ i ] ); ISV( b, i, os[ i ] ); ISV( c, i, os[ i ] ); ISV( d, i, os[ i ] ); }
    UNCHANGED( s, os );
}
template< size_t M, size_t L, class T, class U > void v_iter()
{
    U a[ L + 1 ]; for( size_t i = 0; i <= L; ++i ) a[ i ] = conv< T, U >();
    Vector< M, T > v; vc::sym( v ); auto o = vc::save( v );
    const std::vector< U > s( a, a + L );
    v.iter_set( s.begin(), s.end() );
    for( size_t i = 0; i < M; ++i ) ISV( v, i, i < L ? T( a[ i ] ) : o[ i ] );
    for( size_t i = 0; i < L; ++i ) ENSURES( s[ i ] == a[ i ] );
}
template< size_t M, class T > void v_const()
{
    typedef Vector< M, T > V;
    for( size_t i = 0; i < M; ++i ) { ISV( V::ONE, i, 1 ); ISV( V::ZERO, i, 0 ); }
}
template< class T > void v_const3()
{
    typedef Vector< 3, T > V;
#define IS3( c, x, y, z ) ISV( V::c, 0, x ); ISV( V::c, 1, y ); ISV( V::c, 2, z );
    IS3( FORWARD, 0, 0, -1 ) IS3( BACKWARD, 0, 0, 1 ) IS3( UP, 0, 1, 0 ) IS3( DOWN, 0, -1, 0 ) IS3( LEFT, -1, 0, 0 ) IS3( RIGHT, 1, 0, 0 )
    IS3( UNIT_X, 1, 0, 0 ) IS3( UNIT_Y, 0, 1, 0 ) IS3( UNIT_Z, 0, 0, 1 ) IS3( ONE, 1, 1, 1 ) IS3( ZERO, 0, 0, 0 )
}
#define V( M ) PROVE_ALL( v_ctor##M, v_ctor, M ) PROVE_ALL( v_const##M, v_const, M )
V( 1 ) V( 2 ) V( 3 ) V( 4 ) V( 5 ) V( 6 ) V( 7 ) V( 8 ) V( 9 ) V( 16 ) V( 17 )
#define TYPES( P, n, f ) P( n##_f, f< float > ) P( n##_d, f< double > ) P( n##_i, f< int > ) P( n##_u, f< unsigned > ) P( n##_b, f< uint8_t > )
TYPES( PROVE, v_components, v_components ) TYPES( PROVE, own, v_own )
PROVE( v_axes_f, v_const3< float > ) PROVE( v_axes_d, v_const3< double > ) PROVE( v_axes_i, v_const3< int > )
PROVE_ALL( v_set2_2, v_set2, 2 ) PROVE_ALL( v_set2_3, v_set2, 3 ) PROVE_ALL( v_set2_4, v_set2, 4 ) PROVE_FD( v_set2_6, v_set2, 6 )
PROVE_ALL( v_set3_3, v_set3, 3 ) PROVE_ALL( v_set3_4, v_set3, 4 ) PROVE_FD( v_set3_6, v_set3, 6 ) PROVE_ALL( v_set4_4, v_set4, 4 ) PROVE_FD( v_set4_6, v_set4, 6 )
PROVE_ALL( v_append2, v_append, 2 ) PROVE_ALL( v_append3, v_append, 3 ) PROVE_ALL( v_append4, v_append, 4 ) PROVE_FD( v_append6, v_append, 6 )
PROVE_FD( v_homogeneous2, v_homogeneous, 2 ) PROVE_FD( v_homogeneous3, v_homogeneous, 3 ) PROVE_FD( v_homogeneous4, v_homogeneous, 4 ) PROVE_FD( v_homogeneous6, v_homogeneous, 6 )
PROVE_ALL( v_set4from2, v_set_other, 4, 2 ) PROVE_ALL( v_set4from3, v_set_other, 4, 3 ) PROVE_ALL( v_set3from4, v_set_other, 3, 4 ) PROVE_FD( v_set3from5, v_set_other, 3, 5 ) PROVE_FD( v_set3from3, v_set_other, 3, 3 )
PROVE_FD( v_set5from2, v_set_other, 5, 2 ) PROVE_FD( v_set4from1, v_set_other, 4, 1 ) PROVE_I( v_set6from3, v_set_other, 6, 3 ) PROVE_FD( v_set9from4, v_set_other, 9, 4 ) PROVE_I( v_set2from7, v_set_other, 2, 7 ) PROVE_FD( v_set8from1, v_set_other, 8, 1 ) PROVE_I( v_set7from6, v_set_other, 7, 6 ) PROVE_FD( v_set1from1, v_set_other, 1, 1 )
#define PAIRS( P, n, f, ... ) P( n##_fd, f< __VA_ARGS__, float, double > ) P( n##_df, f< __VA_ARGS__, double, float > ) P( n##_if, f< __VA_ARGS__, int, float > ) \
    P( n##_fi, f< __VA_ARGS__, float, int > ) P( n##_di, f< __VA_ARGS__, double, int > ) P( n##_bf, f< __VA_ARGS__, uint8_t, float > ) P( n##_fb, f< __VA_ARGS__, float, uint8_t > ) \
    P( n##_ui, f< __VA_ARGS__, unsigned, int > ) P( n##_id, f< __VA_ARGS__, int, double > ) P( n##_bi, f< __VA_ARGS__, uint8_t, int > )
PAIRS( PROVE, v_convert1, v_convert, 1 ) PAIRS( PROVE, v_convert2, v_convert, 2 ) PAIRS( PROVE, v_convert3, v_convert, 3 ) PAIRS( PROVE, v_convert4, v_convert, 4 ) PAIRS( PROVE, v_convert7, v_convert, 7 )
PAIRS( PROVE, v_iter30, v_iter, 3, 0 ) PAIRS( PROVE, v_iter32, v_iter, 3, 2 ) PAIRS( PROVE, v_iter33, v_iter, 3, 3 ) PAIRS( PROVE, v_iter45, v_iter, 4, 5 ) PAIRS( PROVE, v_iter51, v_iter, 5, 1 )

// ---------------------------------------------------------------- matrices
#define ISM( m, i, j, x ) vc_check( ( m ).array[ ( j ) * R + ( i ) ] == T( x ), #m "(" #i "," #j ") == " #x " @" VC_STR( __LINE__ ) )
#define EACH for( size_t i = 0; i < R; ++i ) for( size_t j = 0; j < C; ++j )
template< size_t R, size_t C, class T > void m_ctor()
{
    Matrix< R, C, T > z; EACH ISM( z, i, j, R == C && i == j );
    Matrix< R, C, T > s; vc::sym( s ); auto o = vc::save( s );
    const Matrix< R, C, T > c( s ); EACH ISM( c, i, j, o[ j * R + i ] );
    Matrix< R, C, T > e; vc::sym( e ); const Matrix< R, C, T >& r = ( e = s ); ENSURES( &r == &e ); EACH ISM( e, i, j, o[ j * R + i ] );
    UNCHANGED( s, o );
    Matrix< R, C, T >& self = s; s = self; UNCHANGED( s, o );
    const T a = vc::any< T >(), b = vc::any< T >(); e = a; EACH ISM( e, i, j, a ); e.fill( b ); EACH ISM( e, i, j, b ); e.zero(); EACH ISM( e, i, j, 0 );
    T raw[ R * C ]; vc::sym( raw ); auto oraw = vc::save( raw );
    e = static_cast< const T* >( raw ); EACH ISM( e, i, j, oraw[ i * C + j ] );
    vc::sym( e ); e = std::vector< T >( raw, raw + R * C ); EACH ISM( e, i, j, oraw[ i * C + j ] );
    vc::sym( e ); e = *reinterpret_cast< T (*)[ R ][ C ] >( raw ); EACH ISM( e, i, j, oraw[ i * C + j ] );
    for( size_t i = 0; i < R * C; ++i ) ENSURES( raw[ i ] == oraw[ i ] );
    EACH { ISM( ( Matrix< R, C, T >::ZERO ), i, j, 0 ); }
}
template< size_t R, class T > void m_identity()
{
    const size_t C = R;
    EACH { ISM( ( Matrix< R, C, T >::IDENTITY ), i, j, i == j ); }
    Matrix< R, R, T > m; vc::sym( m ); identity( m ); EACH ISM( m, i, j, i == j );
    vc::sym( m ); set_to_identity_functor< Matrix< R, R, T > >()( m ); EACH ISM( m, i, j, i == j );
    vc::sym( m ); set_to_zero_functor< Matrix< R, R, T > >()( m ); EACH ISM( m, i, j, 0 );
}
template< size_t R, size_t C, size_t P, size_t Q, class T, class U > void m_convert()
{
    Matrix< P, Q, U > s; for( size_t k = 0; k < P * Q; ++k ) s.array[ k ] = conv< T, U >(); auto o = vc::save( s );
    const Matrix< R, C, T > a( s ); Matrix< R, C, T > b; vc::sym( b ); b = s;
    EACH { const T x = i < P && j < Q ? T( o[ j * P + i ] ) : T( 0 ); ISM( a, i, j, x ); ISM( b, i, j, x ); }
    UNCHANGED( s, o );
}
template< size_t R, size_t C, class T, class U > void m_cast()
{
    Matrix< R, C, U > s; for( size_t k = 0; k < R * C; ++k ) s.array[ k ] = conv< T, U >(); auto o = vc::save( s );
    Matrix< R, C, T > a; vc::sym( a ); a.cast_from( s ); EACH ISM( a, i, j, o[ j * R + i ] );
    vc::sym( a ); a.set( s.array, s.array + R * C, false ); EACH ISM( a, i, j, o[ j * R + i ] );
    vc::sym( a ); a.set( s.array, s.array + R * C ); EACH ISM( a, i, j, o[ i * C + j ] );
    UNCHANGED( s, o );
}
template< size_t R, size_t C, size_t L, class T > void m_set()
{
    T a[ L + 1 ]; vc::sym( a ); const std::vector< T > s( a, a + L );
    Matrix< R, C, T > m, n, d; vc::sym( m ); vc::sym( n ); vc::sym( d ); auto om = vc::save( m ), on = vc::save( n ), od = vc::save( d );
    m.set( s.begin(), s.end(), true ); n.set( s.begin(), s.end(), false ); d.set( s.begin(), s.end() );
    EACH { ISM( m, i, j, i * C + j < L ? a[ i * C + j ] : om[ j * R + i ] ); ISM( n, i, j, j * R + i < L ? a[ j * R + i ] : on[ j * R + i ] ); ISM( d, i, j, i * C + j < L ? a[ i * C + j ] : od[ j * R + i ] ); }
    for( size_t i = 0; i < L; ++i ) ENSURES( s[ i ] == a[ i ] );
}
#define MM( M, N ) PROVE_ALL( m_ctor##M##N, m_ctor, M, N )
MM( 1, 1 ) MM( 1, 4 ) MM( 4, 1 ) MM( 2, 2 ) MM( 2, 3 ) MM( 3, 2 ) MM( 3, 3 ) MM( 3, 4 ) MM( 4, 3 ) MM( 4, 4 ) MM( 5, 3 ) MM( 2, 5 ) MM( 5, 5 ) MM( 6, 6 ) MM( 3, 7 )
PROVE_ALL( m_identity1, m_identity, 1 ) PROVE_ALL( m_identity2, m_identity, 2 ) PROVE_ALL( m_identity3, m_identity, 3 ) PROVE_ALL( m_identity4, m_identity, 4 ) PROVE_ALL( m_identity5, m_identity, 5 )
PROVE_ALL( m_identity6, m_identity, 6 )
#define CV( n, ... ) PROVE( m_convert##n##_ff, m_convert< __VA_ARGS__, float, float > ) PROVE( m_convert##n##_dd, m_convert< __VA_ARGS__, double, double > ) \
    PROVE( m_convert##n##_fd, m_convert< __VA_ARGS__, float, double > ) PROVE( m_convert##n##_df, m_convert< __VA_ARGS__, double, float > ) \
    PROVE( m_convert##n##_if, m_convert< __VA_ARGS__, int, float > ) PROVE( m_convert##n##_fb, m_convert< __VA_ARGS__, float, uint8_t > ) PROVE( m_convert##n##_bi, m_convert< __VA_ARGS__, uint8_t, int > )
CV( 33from44, 3, 3, 4, 4 ) CV( 44from33, 4, 4, 3, 3 ) CV( 34from44, 3, 4, 4, 4 ) CV( 44from34, 4, 4, 3, 4 ) CV( 23from32, 2, 3, 3, 2 ) CV( 32from23, 3, 2, 2, 3 ) CV( 43from34, 4, 3, 3, 4 )
CV( 55from44, 5, 5, 4, 4 ) CV( 44from66, 4, 4, 6, 6 ) CV( 36from63, 3, 6, 6, 3 ) CV( 22from35, 2, 2, 3, 5 ) CV( 53from22, 5, 3, 2, 2 ) CV( 24from42, 2, 4, 4, 2 ) CV( 11from22, 1, 1, 2, 2 ) CV( 22from11, 2, 2, 1, 1 ) CV( 14from41, 1, 4, 4, 1 ) CV( 34from33, 3, 4, 3, 3 ) CV( 43from33, 4, 3, 3, 3 )
PROVE( m_convert44_fd, m_convert< 4, 4, 4, 4, float, double > ) PROVE( m_convert44_df, m_convert< 4, 4, 4, 4, double, float > ) PROVE( m_convert23_if, m_convert< 2, 3, 2, 3, int, float > ) PROVE( m_convert32_fi, m_convert< 3, 2, 3, 2, float, int > )
PAIRS( PROVE, m_cast22, m_cast, 2, 2 ) PAIRS( PROVE, m_cast23, m_cast, 2, 3 ) PAIRS( PROVE, m_cast32, m_cast, 3, 2 ) PAIRS( PROVE, m_cast44, m_cast, 4, 4 ) PAIRS( PROVE, m_cast15, m_cast, 1, 5 )
#define ST( n, ... ) PROVE_FD( m_set##n, m_set, __VA_ARGS__ ) PROVE_I( m_set##n, m_set, __VA_ARGS__ )
ST( 22_0, 2, 2, 0 ) ST( 22_1, 2, 2, 1 ) ST( 22_3, 2, 2, 3 ) ST( 22_4, 2, 2, 4 ) ST( 22_6, 2, 2, 6 ) ST( 23_2, 2, 3, 2 ) ST( 23_3, 2, 3, 3 ) ST( 23_5, 2, 3, 5 ) ST( 23_6, 2, 3, 6 ) ST( 23_8, 2, 3, 8 )
ST( 32_1, 3, 2, 1 ) ST( 32_4, 3, 2, 4 ) ST( 32_6, 3, 2, 6 ) ST( 44_7, 4, 4, 7 ) ST( 44_15, 4, 4, 15 ) ST( 44_16, 4, 4, 16 ) ST( 44_17, 4, 4, 17 ) ST( 34_5, 3, 4, 5 ) ST( 43_10, 4, 3, 10 ) ST( 15_3, 1, 5, 3 ) ST( 51_3, 5, 1, 3 )

static void canary1() { typedef double T; Vector< 3, T > s; vc::sym( s ); const Vector< 4, T > v( s ); ISV( v, 3, 0 ); }
REFUTE( homogeneous_zero, canary1 )
static void canary2() { typedef float T; const size_t R = 2, C = 3; T a[ 6 ]; vc::sym( a ); Matrix< 2, 3, T > m; m = static_cast< const T* >( a ); EACH ISM( m, i, j, a[ j * R + i ] ); }
REFUTE( transposed_layout, canary2 )
#endif

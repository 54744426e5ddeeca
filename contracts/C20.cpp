// C20: frustum projection matrices map the view volume onto the unit cube
// VC-CONFIG-QUICK: release=-DNDEBUG
#include "vc.h"
#include <vmmlib/vector.hpp>
#include <vmmlib/matrix.hpp>
#include <vmmlib/frustum.hpp>
using namespace vmml;
#define E( a, r, c ) ( a )[ ( r ) + 4 * ( c ) ]

// any frustum with proper extents; L R B T N F
template< class T > void sym_frustum( Frustum< T >& f )
{
    vc::sym( f );
    REQUIRES( f.array[ 0 ] != f.array[ 1 ] ); REQUIRES( f.array[ 2 ] != f.array[ 3 ] ); REQUIRES( f.array[ 4 ] != f.array[ 5 ] );
    REQUIRES( f.array[ 4 ] != T( 0 ) );
}
template< class T > void clip( T* r, const Matrix< 4, 4, T >& m, T x, T y, T z )
{ const T v[ 4 ] = { x, y, z, 1 }; for( size_t i = 0; i < 4; ++i ) { r[ i ] = 0; for( size_t j = 0; j < 4; ++j ) r[ i ] += E( m.array, i, j ) * v[ j ]; } }
template< class T > void perspective()
{
    Frustum< T > f; sym_frustum( f ); auto o = vc::save( f ); const Frustum< T >& cf = f;
    Matrix< 4, 4, T > m; vc::sym( m ); cf.compute_matrix( m ); const Matrix< 4, 4, T > n = cf.compute_matrix();
    UNCHANGED( f, o );
    for( size_t i = 0; i < 16; ++i ) ENSURES_EQ( m.array[ i ], n.array[ i ] );
    for( size_t k = 0; k < 8; ++k )
    {
        const bool far = ( k & 4 ) != 0; const T s = far ? o[ 5 ] / o[ 4 ] : T( 1 ); T r[ 4 ];
        clip( r, m, o[ k & 1 ] * s, o[ 2 + ( k >> 1 & 1 ) ] * s, far ? -o[ 5 ] : -o[ 4 ] );
        ENSURES_EQ( r[ 3 ], far ? o[ 5 ] : o[ 4 ] );
        ENSURES_EQ( r[ 0 ], ( k & 1 ) ? r[ 3 ] : -r[ 3 ] ); ENSURES_EQ( r[ 1 ], ( k & 2 ) ? r[ 3 ] : -r[ 3 ] ); ENSURES_EQ( r[ 2 ], far ? r[ 3 ] : -r[ 3 ] );
    }
    // the remaining entries: x' depends on x and z only, and so on
    for( size_t i = 0; i < 4; ++i ) for( size_t j = 0; j < 4; ++j )
        if( !( ( i == j && i < 3 ) || ( j == 2 && i != 2 ) || ( i == 2 && j == 3 ) ) ) ENSURES_EQ( E( m.array, i, j ), T( 0 ) );
    ENSURES_EQ( E( m.array, 3, 2 ), T( -1 ) );
}
template< class T > void ortho()
{
    Frustum< T > f; vc::sym( f ); REQUIRES( f.array[ 0 ] != f.array[ 1 ] ); REQUIRES( f.array[ 2 ] != f.array[ 3 ] ); REQUIRES( f.array[ 4 ] != f.array[ 5 ] );
    auto o = vc::save( f ); const Frustum< T >& cf = f;
    Matrix< 4, 4, T > m; vc::sym( m ); cf.compute_ortho_matrix( m ); const Matrix< 4, 4, T > n = cf.compute_ortho_matrix();
    UNCHANGED( f, o );
    for( size_t i = 0; i < 16; ++i ) ENSURES_EQ( m.array[ i ], n.array[ i ] );
    for( size_t k = 0; k < 8; ++k )
    {
        T r[ 4 ]; clip( r, m, o[ k & 1 ], o[ 2 + ( k >> 1 & 1 ) ], -o[ 4 + ( k >> 2 ) ] );
        ENSURES_EQ( r[ 3 ], T( 1 ) );
        for( size_t i = 0; i < 3; ++i ) ENSURES_EQ( r[ i ], ( k >> i & 1 ) ? T( 1 ) : T( -1 ) );
    }
    for( size_t i = 0; i < 4; ++i ) for( size_t j = 0; j < 3; ++j ) if( i != j ) ENSURES_EQ( E( m.array, i, j ), T( 0 ) );
}
// same pyramid (side planes scale with the near plane) and the same far plane
template< class T > void near_plane()
{
    Frustum< T > f; vc::sym( f ); REQUIRES( f.array[ 4 ] != T( 0 ) ); auto o = vc::save( f ); const T n = vc::any< T >();
    f.adjust_near( n );
    for( size_t i = 0; i < 4; ++i ) ENSURES_EQ( f.array[ i ] * o[ 4 ], o[ i ] * n );
    ENSURES_EQ( f.array[ 4 ], n ); ENSURES( f.array[ 5 ] == o[ 5 ] );
    // and back again
    REQUIRES( n != T( 0 ) ); f.adjust_near( o[ 4 ] );
    for( size_t i = 0; i < 6; ++i ) ENSURES_EQ( f.array[ i ], o[ i ] );
}
// the given value may be a reference into the frustum itself
template< class T > void near_own()
{
    Frustum< T > f; vc::sym( f ); REQUIRES( f.array[ 4 ] != T( 0 ) ); auto o = vc::save( f );
    f.adjust_near( f.near_plane() ); UNCHANGED( f, o );
    f.adjust_near( f.far_plane() ); for( size_t i = 0; i < 4; ++i ) ENSURES_EQ( f.array[ i ] * o[ 4 ], o[ i ] * o[ 5 ] );
    ENSURES( f.array[ 4 ] == o[ 5 ] ); ENSURES( f.array[ 5 ] == o[ 5 ] );
}
template< class T > void jitter()
{
    Frustum< T > f; vc::sym( f ); auto o = vc::save( f ); Vector< 2, T > j; vc::sym( j ); auto oj = vc::save( j );
    f.apply_jitter( j );
    ENSURES_EQ( f.array[ 0 ], o[ 0 ] + oj[ 0 ] ); ENSURES_EQ( f.array[ 1 ], o[ 1 ] + oj[ 0 ] ); ENSURES_EQ( f.array[ 2 ], o[ 2 ] + oj[ 1 ] ); ENSURES_EQ( f.array[ 3 ], o[ 3 ] + oj[ 1 ] );
    ENSURES( f.array[ 4 ] == o[ 4 ] ); ENSURES( f.array[ 5 ] == o[ 5 ] ); UNCHANGED( j, oj );
}
template< class T > void sizes()
{
    Frustum< T > f; vc::sym( f ); auto o = vc::save( f ); const Frustum< T >& cf = f;
    const T w = cf.get_width(), h = cf.get_height();
    ENSURES( w >= T( 0 ) ); ENSURES( h >= T( 0 ) );
    ENSURES( vc::eq( w, o[ 1 ] - o[ 0 ] ) || vc::eq( w, o[ 0 ] - o[ 1 ] ) ); ENSURES( vc::eq( h, o[ 3 ] - o[ 2 ] ) || vc::eq( h, o[ 2 ] - o[ 3 ] ) );
    UNCHANGED( f, o );
}
template< class T > void set_up()
{
    Frustum< T > f; vc::sym( f ); const T fov = vc::any< T >(), aspect = vc::any< T >(), n = vc::any< T >(), z = vc::any< T >();
    const double half = 0.5 * fov * M_PI / 180.0;
    REQUIRES( std::cos( half ) != 0 ); REQUIRES( !vc_random() || ( fov > T( 1 ) && fov < T( 170 ) ) );
    f.set_perspective( fov, aspect, n, z );
    ENSURES_EQ( f.array[ 3 ], T( std::tan( half ) * n ) );
    ENSURES_EQ( f.array[ 2 ], -f.array[ 3 ] ); ENSURES_EQ( f.array[ 0 ], -f.array[ 1 ] ); ENSURES_EQ( f.array[ 1 ], aspect * f.array[ 3 ] );
    ENSURES( f.array[ 4 ] == n ); ENSURES( f.array[ 5 ] == z );
    vc_cover( "set" );
}
template< class T, class U > void storage()
{
    const T l = vc::any< T >(), r = vc::any< T >(), b = vc::any< T >(), t = vc::any< T >(), n = vc::any< T >(), z = vc::any< T >(); const T v[ 6 ] = { l, r, b, t, n, z };
    const Frustum< T > c( l, r, b, t, n, z ); Frustum< T > f; for( size_t i = 0; i < 6; ++i ) ENSURES( f.array[ i ] == T( 0 ) );
    vc::sym( f ); f.set( l, r, b, t, n, z );
    const Frustum< T > d( v ), e( c ); Frustum< T > g; vc::sym( g ); Frustum< T >& ret = ( g = c ); ENSURES( &ret == &g );
    for( size_t i = 0; i < 6; ++i ) { ENSURES( c.array[ i ] == v[ i ] ); ENSURES( f.array[ i ] == v[ i ] ); ENSURES( d.array[ i ] == v[ i ] ); ENSURES( e.array[ i ] == v[ i ] ); ENSURES( g.array[ i ] == v[ i ] ); }
    g = g; for( size_t i = 0; i < 6; ++i ) ENSURES( g.array[ i ] == v[ i ] );
    // other element types
    const U u[ 6 ] = { vc::any< U >(), vc::any< U >(), vc::any< U >(), vc::any< U >(), vc::any< U >(), vc::any< U >() };
    const Frustum< U > s( u ); const Frustum< T > x( s ), y( u ); Frustum< T > w; vc::sym( w ); w = s;
    for( size_t i = 0; i < 6; ++i ) { ENSURES( s.array[ i ] == u[ i ] ); ENSURES( x.array[ i ] == T( u[ i ] ) ); ENSURES( y.array[ i ] == T( u[ i ] ) ); ENSURES( w.array[ i ] == T( u[ i ] ) ); }
    // accessors
    ENSURES( &f.left() == f.array ); ENSURES( &f.right() == f.array + 1 ); ENSURES( &f.bottom() == f.array + 2 ); ENSURES( &f.top() == f.array + 3 ); ENSURES( &f.near_plane() == f.array + 4 ); ENSURES( &f.far_plane() == f.array + 5 );
    ENSURES( &c.left() == c.array ); ENSURES( &c.right() == c.array + 1 ); ENSURES( &c.bottom() == c.array + 2 ); ENSURES( &c.top() == c.array + 3 ); ENSURES( &c.near_plane() == c.array + 4 ); ENSURES( &c.far_plane() == c.array + 5 );
    const Frustum< T >& k = Frustum< T >::DEFAULT; const T dv[ 6 ] = { -1, 1, -1, 1, T( 0.1 ), 100 }; for( size_t i = 0; i < 6; ++i ) ENSURES( k.array[ i ] == dv[ i ] );
}
#define FD( n, f ) PROVE( n##_f, f< float > ) PROVE( n##_d, f< double > )
FD( perspective, perspective ) FD( ortho, ortho ) FD( near_plane, near_plane ) FD( near_own, near_own ) FD( jitter, jitter ) FD( sizes, sizes ) FD( set_perspective, set_up )
PROVE( storage_f, storage< float, double > ) PROVE( storage_d, storage< double, float > ) PROVE( storage_di, storage< double, int > )

// the far corners are not at the extents given for the near plane
static void canary()
{
    typedef double T; Frustum< T > f; sym_frustum( f ); auto o = vc::save( f ); const Matrix< 4, 4, T > m = f.compute_matrix(); T r[ 4 ];
    clip( r, m, o[ 0 ], o[ 2 ], -o[ 5 ] ); ENSURES_EQ( r[ 0 ], -r[ 3 ] );
}
REFUTE( box_view, canary )
static void canary2() { typedef float T; Frustum< T > f; vc::sym( f ); REQUIRES( f.array[ 4 ] != T( 0 ) ); auto o = vc::save( f ); f.adjust_near( vc::any< T >() ); ENSURES( f.array[ 1 ] == o[ 1 ] ); }
REFUTE( near_only, canary2 )

// C21: frustum culling never drops anything visible nor overstates visibility
#include "vc.h"
#include <vmmlib/vector.hpp>
#include <vmmlib/matrix.hpp>
#include <vmmlib/frustum.hpp>
#include <vmmlib/frustum_culler.hpp>
using namespace vmml;
#define E( a, r, c ) ( a )[ ( r ) + 4 * ( c ) ]

// ---- specification: the six planes of the view volume -w <= x,y,z <= w, scaled to unit normals
template< class T > struct Plane { T n[ 3 ], w; T at( const T* p ) const { return n[ 0 ] * p[ 0 ] + n[ 1 ] * p[ 1 ] + n[ 2 ] * p[ 2 ] + w; } };
template< class T > void unit( Plane< T >& p )
{
    const T q = p.n[ 0 ] * p.n[ 0 ] + p.n[ 1 ] * p.n[ 1 ] + p.n[ 2 ] * p.n[ 2 ]; REQUIRES( q > T( 0 ) );
    const T l = std::sqrt( q ); for( size_t i = 0; i < 3; ++i ) p.n[ i ] /= l; p.w /= l;
}
// k: left right bottom top near far
template< class T > Plane< T > clip_plane( const Matrix< 4, 4, T >& m, size_t k )
{
    Plane< T > p; const T s = k & 1 ? T( -1 ) : T( 1 );
    for( size_t i = 0; i < 3; ++i ) p.n[ i ] = E( m.array, 3, i ) + s * E( m.array, k / 2, i );
    p.w = E( m.array, 3, 3 ) + s * E( m.array, k / 2, 3 );
    return p;
}
template< class T > struct Six { Plane< T > p[ 6 ]; };
template< class T > Six< T > clip_planes( const Matrix< 4, 4, T >& m ) { Six< T > r; for( size_t k = 0; k < 6; ++k ) { r.p[ k ] = clip_plane( m, k ); unit( r.p[ k ] ); } return r; }

template< class T > int classify_sphere( const Six< T >& s, const T* c )
{
    bool none = false, full = true;
    for( size_t k = 0; k < 6; ++k ) { const T d = s.p[ k ].at( c ); none = none || d <= -c[ 3 ]; full = full && d >= c[ 3 ]; }
    return none ? VISIBILITY_NONE : full ? VISIBILITY_FULL : VISIBILITY_PARTIAL;
}
// smallest and largest distance of the eight corners: centre -/+ half the extent weighted by the magnitudes of the normal (see corner_extremes)
template< class T > T mag( T x ) { return x < T( 0 ) ? -x : x; }
template< class T > void extremes( const Plane< T >& p, const T (&b)[ 3 ][ 2 ], T& lo, T& hi )
{
    T c[ 3 ], e = 0;
    for( size_t i = 0; i < 3; ++i ) { c[ i ] = ( b[ i ][ 0 ] + b[ i ][ 1 ] ) / 2; e += mag( b[ i ][ 1 ] - b[ i ][ 0 ] ) / 2 * mag( p.n[ i ] ); }
    lo = p.at( c ) - e; hi = p.at( c ) + e;
}
template< class T > int classify_box( const Six< T >& s, const T (&b)[ 3 ][ 2 ] )
{
    bool none = false, full = true;
    for( size_t k = 0; k < 6; ++k ) { T lo, hi; extremes( s.p[ k ], b, lo, hi ); none = none || ( lo < T( 0 ) && hi <= T( 0 ) ); full = full && lo >= T( 0 ); }
    return none ? VISIBILITY_NONE : full ? VISIBILITY_FULL : VISIBILITY_PARTIAL;
}
template< class T > void corner_extremes()
{
    Plane< T > p; vc::sym( p.n ); p.w = vc::any< T >(); T b[ 3 ][ 2 ]; for( auto& r : b ) vc::sym( r );
    T lo, hi; extremes( p, b, lo, hi ); bool al = false, ah = false;
    for( size_t k = 0; k < 8; ++k )
    {
        const T q[ 3 ] = { b[ 0 ][ k & 1 ], b[ 1 ][ k >> 1 & 1 ], b[ 2 ][ k >> 2 ] }; const T d = p.at( q );
        ENSURES( lo <= d || vc::eq( lo, d ) ); ENSURES( d <= hi || vc::eq( d, hi ) ); al = al || vc::eq( d, lo ); ah = ah || vc::eq( d, hi );
    }
    ENSURES( al ); ENSURES( ah );
}
// ---- the code under contract
template< class T > void sphere_matrix()
{
    Matrix< 4, 4, T > m; vc::sym( m ); auto om = vc::save( m ); const Six< T > s = clip_planes( m );
    FrustumCuller< T > c; c.setup( m ); UNCHANGED( m, om );
    Vector< 4, T > v; vc::sym( v ); auto o = vc::save( v ); REQUIRES( o[ 3 ] >= T( 0 ) );
    const FrustumCuller< T >& cc = c; const int r = cc.test_sphere( v );
    ENSURES( r == classify_sphere( s, o.v ) ); UNCHANGED( v, o );
    vc_cover( "tested" );
}
template< class T > void box_matrix()
{
    Matrix< 4, 4, T > m; vc::sym( m ); auto om = vc::save( m ); const Six< T > s = clip_planes( m );
    FrustumCuller< T > c; c.setup( m ); UNCHANGED( m, om );
    Vector< 2, T > x, y, z; vc::sym( x ); vc::sym( y ); vc::sym( z ); const T b[ 3 ][ 2 ] = { { x.array[ 0 ], x.array[ 1 ] }, { y.array[ 0 ], y.array[ 1 ] }, { z.array[ 0 ], z.array[ 1 ] } };
    const FrustumCuller< T >& cc = c; const int r = cc.test_aabb( x, y, z );
    ENSURES( r == classify_box( s, b ) );
    vc_cover( "tested" );
}
// the eight corners, named as setup() names them: nlt nrt nlb nrb flt frt flb frb
template< class T > struct Points { Vector< 3, T > p[ 8 ]; };
// plane of three corners of a face, oriented towards the inside
template< class T > Plane< T > face( const Points< T >& c, size_t a, size_t b, size_t d )
{
    const T *x = c.p[ a ].array, *y = c.p[ b ].array, *z = c.p[ d ].array; T u[ 3 ], v[ 3 ]; Plane< T > p;
    for( size_t i = 0; i < 3; ++i ) { u[ i ] = y[ i ] - x[ i ]; v[ i ] = z[ i ] - x[ i ]; }
    for( size_t i = 0; i < 3; ++i ) p.n[ i ] = u[ ( i + 1 ) % 3 ] * v[ ( i + 2 ) % 3 ] - u[ ( i + 2 ) % 3 ] * v[ ( i + 1 ) % 3 ];
    p.w = 0; for( size_t i = 0; i < 3; ++i ) p.w -= p.n[ i ] * x[ i ];
    return p;
}
// three corners of each face, counter-clockwise seen from inside
template< class T > Six< T > corner_planes( const Points< T >& c )
{
    static const size_t f[ 6 ][ 3 ] = { { 2, 4, 0 }, { 3, 1, 5 }, { 2, 3, 7 }, { 0, 5, 1 }, { 0, 1, 2 }, { 4, 6, 5 } };
    Six< T > r; for( size_t k = 0; k < 6; ++k ) { r.p[ k ] = face( c, f[ k ][ 0 ], f[ k ][ 1 ], f[ k ][ 2 ] ); unit( r.p[ k ] ); }
    return r;
}
#define SETUP( c, q ) c.setup( q.p[ 0 ], q.p[ 1 ], q.p[ 2 ], q.p[ 3 ], q.p[ 4 ], q.p[ 5 ], q.p[ 6 ], q.p[ 7 ] )
// corners of a view frustum in eye space: left right bottom top near far
template< class T > Points< T > corners( const Frustum< T >& f )
{
    Points< T > q; const T* a = f.array;
    for( size_t k = 0; k < 8; ++k )
    {
        const T s = k & 4 ? a[ 5 ] / a[ 4 ] : T( 1 ); T* v = q.p[ k ].array;
        v[ 0 ] = a[ k & 1 ] * s; v[ 1 ] = a[ k & 2 ? 2 : 3 ] * s; v[ 2 ] = -a[ k & 4 ? 5 : 4 ];
    }
    return q;
}
template< class T > void sphere_corners()
{
    Points< T > q; for( auto& p : q.p ) vc::sym( p ); Points< T > oq( q ); const Six< T > s = corner_planes( q );
    FrustumCuller< T > c; SETUP( c, q ); for( size_t k = 0; k < 8; ++k ) for( size_t i = 0; i < 3; ++i ) ENSURES( q.p[ k ].array[ i ] == oq.p[ k ].array[ i ] );
    Vector< 4, T > v; vc::sym( v ); auto o = vc::save( v ); REQUIRES( o[ 3 ] >= T( 0 ) );
    const FrustumCuller< T >& cc = c; const int r = cc.test_sphere( v );
    ENSURES( r == classify_sphere( s, o.v ) ); UNCHANGED( v, o );
}
template< class T > void box_corners()
{
    Points< T > q; for( auto& p : q.p ) vc::sym( p ); const Six< T > s = corner_planes( q );
    FrustumCuller< T > c; SETUP( c, q );
    Vector< 2, T > x, y, z; vc::sym( x ); vc::sym( y ); vc::sym( z ); const T b[ 3 ][ 2 ] = { { x.array[ 0 ], x.array[ 1 ] }, { y.array[ 0 ], y.array[ 1 ] }, { z.array[ 0 ], z.array[ 1 ] } };
    const FrustumCuller< T >& cc = c; const int r = cc.test_aabb( x, y, z );
    ENSURES( r == classify_box( s, b ) );
}
#define FD( n, f ) PROVE( n##_f, f< float > ) PROVE( n##_d, f< double > )
FD( sphere_matrix, sphere_matrix ) FD( box_matrix, box_matrix ) FD( sphere_corners, sphere_corners ) FD( box_corners, box_corners )
FD( corner_extremes, corner_extremes )

// ---- consequences for every point
#define LEMMA( c ) { ENSURES( c ); REQUIRES( c ); }
template< class T > void sym_ball( T* x, const T* c )
{
    T d[ 3 ], q = 0; for( size_t i = 0; i < 3; ++i ) { d[ i ] = vc::any< T >(); q += d[ i ] * d[ i ]; x[ i ] = c[ i ] + d[ i ]; }
    REQUIRES( q <= c[ 3 ] * c[ 3 ] );
}
// no point of the ball is further from any of the planes than the radius allows
template< class T > void ball()
{
    Plane< T > p; vc::sym_unit( p.n, 3 ); p.w = vc::any< T >(); T c[ 4 ]; vc::sym( c ); REQUIRES( c[ 3 ] >= T( 0 ) );
    T x[ 3 ], d = 0, q = 0; for( size_t i = 0; i < 3; ++i ) { x[ i ] = vc::any< T >(); d += p.n[ i ] * ( x[ i ] - c[ i ] ); q += ( x[ i ] - c[ i ] ) * ( x[ i ] - c[ i ] ); }
    REQUIRES( q <= c[ 3 ] * c[ 3 ] );
    T l = 0; for( size_t i = 0; i < 3; ++i ) { const size_t j = ( i + 1 ) % 3; const T e = p.n[ i ] * ( x[ j ] - c[ j ] ) - p.n[ j ] * ( x[ i ] - c[ i ] ); l += e * e; }
    ENSURES_EQ( d * d + l, q );
    ENSURES_EQ( p.at( x ) - p.at( c ), d );
    ENSURES( l >= T( 0 ) );
    ENSURES( d <= c[ 3 ] ); ENSURES( d >= -c[ 3 ] );
}
FD( ball, ball )
template< class T > void frustum_planes()
{
    Frustum< T > f; vc::sym( f ); const T* a = f.array; REQUIRES( a[ 0 ] < a[ 1 ] ); REQUIRES( a[ 2 ] < a[ 3 ] ); REQUIRES( T( 0 ) < a[ 4 ] ); REQUIRES( a[ 4 ] < a[ 5 ] );
    const Matrix< 4, 4, T > m = f.compute_matrix(); const Points< T > q = corners( f );
    static const size_t g[ 6 ][ 3 ] = { { 2, 4, 0 }, { 3, 1, 5 }, { 2, 3, 7 }, { 0, 5, 1 }, { 0, 1, 2 }, { 4, 6, 5 } };
    for( size_t k = 0; k < 6; ++k )
    {
        const Plane< T > u = clip_plane( m, k ), v = face( q, g[ k ][ 0 ], g[ k ][ 1 ], g[ k ][ 2 ] );
        for( size_t i = 0; i < 3; ++i ) { ENSURES_EQ( u.n[ i ] * v.n[ ( i + 1 ) % 3 ], u.n[ ( i + 1 ) % 3 ] * v.n[ i ] ); ENSURES_EQ( u.n[ i ] * v.w, u.w * v.n[ i ] ); }
        ENSURES( u.n[ 0 ] * v.n[ 0 ] + u.n[ 1 ] * v.n[ 1 ] + u.n[ 2 ] * v.n[ 2 ] > T( 0 ) );
    }
}
FD( frustum_planes, frustum_planes )

// a sphere whose centre is inside need not be fully visible
static void canary()
{
    typedef double T; Matrix< 4, 4, T > m; vc::sym( m ); const Six< T > s = clip_planes( m ); FrustumCuller< T > c; c.setup( m );
    Vector< 4, T > v; vc::sym( v ); REQUIRES( v.array[ 3 ] > T( 0 ) ); bool in = true; for( size_t k = 0; k < 6; ++k ) in = in && s.p[ k ].at( v.array ) >= T( 0 );
    const int r = c.test_sphere( v ); ENSURES( !in || r == VISIBILITY_FULL );
}
REFUTE( centre_only, canary )
// a box outside of none of the planes is not always fully visible
static void canary2()
{
    typedef float T; Matrix< 4, 4, T > m; for( size_t i = 0; i < 16; ++i ) m.array[ i ] = T( i % 5 == 0 ); FrustumCuller< T > c; c.setup( m );
    Vector< 2, T > x, y, z; vc::sym( x ); vc::sym( y ); vc::sym( z ); ENSURES( c.test_aabb( x, y, z ) != VISIBILITY_PARTIAL );
}
REFUTE( no_partial, canary2 )

// C05: vector products, lengths, normalisation and sphere/plane geometry are exact
// VC-CONFIG-QUICK: release=-DNDEBUG
#include "vc.h"
#include <vmmlib/vector.hpp>
#include <vmmlib/matrix.hpp>
using namespace vmml;

template< size_t M, class T > void dots()
{
    Vector< M, T > a, b; vc::sym( a ); vc::sym( b ); auto oa = vc::save( a ), ob = vc::save( b ); const Vector< M, T > &ca = a, &cb = b;
    T s = 0, q = 0, d = 0;
    for( size_t i = 0; i < M; ++i ) { s = T( s + oa[ i ] * ob[ i ] ); q = T( q + oa[ i ] * oa[ i ] ); const T e = T( oa[ i ] - ob[ i ] ); d = T( d + e * e ); }
    ENSURES_EQ( ca.dot( cb ), s ); ENSURES_EQ( vmml::dot( ca, cb ), s ); ENSURES_EQ( ca.dot( ca ), q ); ENSURES_EQ( cb.dot( ca ), s );
    ENSURES_EQ( ca.squared_length(), q ); ENSURES_EQ( ca.squared_distance( cb ), d ); ENSURES_EQ( cb.squared_distance( ca ), d ); ENSURES_EQ( ca.squared_distance( ca ), T( 0 ) );
    UNCHANGED( a, oa ); UNCHANGED( b, ob );
}
template< size_t M, class T > void lengths()
{
    Vector< M, T > a, b; vc::sym( a ); vc::sym( b ); auto oa = vc::save( a ), ob = vc::save( b ); const Vector< M, T > &ca = a, &cb = b;
    T q = 0, d = 0;
    for( size_t i = 0; i < M; ++i ) { q += oa[ i ] * oa[ i ]; d += ( oa[ i ] - ob[ i ] ) * ( oa[ i ] - ob[ i ] ); }
    const T l = ca.length(); ENSURES_EQ( l * l, q ); ENSURES( l >= T( 0 ) );
    const double n = ca.norm(); ENSURES_EQ( T( n ) * T( n ), q ); ENSURES( n >= 0 );
    const T e = ca.distance( cb ); ENSURES_EQ( e * e, d ); ENSURES( e >= T( 0 ) );
    ENSURES_EQ( cb.distance( ca ), e );
    UNCHANGED( a, oa ); UNCHANGED( b, ob );
}
template< size_t M, class T > void normalise()
{
    Vector< M, T > a; vc::sym( a ); auto o = vc::save( a );
    T q = 0; for( size_t i = 0; i < M; ++i ) q += o[ i ] * o[ i ];
    const Vector< M, T > f = vmml::normalize( a );
    UNCHANGED( a, o );
    const T l = a.normalize();
    if( q == T( 0 ) ) { ENSURES( l == T( 0 ) ); UNCHANGED( a, o ); UNCHANGED( f, o ); }
    else
    {
        ENSURES_EQ( l * l, q ); ENSURES( l > T( 0 ) );
        T s = 0, t = 0;
        for( size_t i = 0; i < M; ++i )
        {
            s += a.array[ i ] * a.array[ i ]; t += f.array[ i ] * f.array[ i ];
            ENSURES_EQ( a.array[ i ] * l, o[ i ] ); ENSURES_EQ( f.array[ i ] * l, o[ i ] );
        }
        ENSURES_EQ( s, T( 1 ) ); ENSURES_EQ( t, T( 1 ) );
    }
}
#define IS3( v, x, y, z ) ENSURES_EQ( ( v ).array[ 0 ], T( x ) ); ENSURES_EQ( ( v ).array[ 1 ], T( y ) ); ENSURES_EQ( ( v ).array[ 2 ], T( z ) );
#define ISCROSS( v, a, b ) IS3( v, a[ 1 ] * b[ 2 ] - a[ 2 ] * b[ 1 ], a[ 2 ] * b[ 0 ] - a[ 0 ] * b[ 2 ], a[ 0 ] * b[ 1 ] - a[ 1 ] * b[ 0 ] )
template< class T > void crosses()
{
    Vector< 3, T > a, b, r; vc::sym( a ); vc::sym( b ); vc::sym( r ); auto oa = vc::save( a ), ob = vc::save( b );
    const Vector< 3, T > &ca = a, &cb = b;
    const Vector< 3, T > p = ca.cross( cb ); ISCROSS( p, oa, ob )
    const Vector< 3, T > n = cb.cross( ca ); ISCROSS( n, ob, oa )
    const Vector< 3, T > q = vmml::cross< 3, T >( a, b ); ISCROSS( q, oa, ob )
    r.cross( a, b ); ISCROSS( r, oa, ob )
    const Vector< 3, T > z = ca.cross( ca ); IS3( z, 0, 0, 0 )
    UNCHANGED( a, oa ); UNCHANGED( b, ob );
    // in place with its operands
    Vector< 3, T > c( a ); c.cross( c, b ); ISCROSS( c, oa, ob )
    Vector< 3, T > d( b ); d.cross( a, d ); ISCROSS( d, oa, ob )
    Vector< 3, T > e( a ); e.cross( e, e ); IS3( e, 0, 0, 0 )
    UNCHANGED( a, oa ); UNCHANGED( b, ob );
}
// the rotated vector by Rodrigues' formula
template< class T > void rotated()
{
    Vector< 3, T > v, k; vc::sym( v ); vc::sym_unit( k.array, 3 ); auto o = vc::save( v ), ok = vc::save( k ); const T t = vc::any< T >();
    const Vector< 3, T >& cv = v;
    const Vector< 3, T > r = cv.rotate( t, k );
    const T c = std::cos( t ), s = std::sin( t ), d = ( ok[ 0 ] * o[ 0 ] + ok[ 1 ] * o[ 1 ] + ok[ 2 ] * o[ 2 ] ) * ( 1 - c );
    IS3( r, o[ 0 ] * c + ( ok[ 1 ] * o[ 2 ] - ok[ 2 ] * o[ 1 ] ) * s + ok[ 0 ] * d,
            o[ 1 ] * c + ( ok[ 2 ] * o[ 0 ] - ok[ 0 ] * o[ 2 ] ) * s + ok[ 1 ] * d,
            o[ 2 ] * c + ( ok[ 0 ] * o[ 1 ] - ok[ 1 ] * o[ 0 ] ) * s + ok[ 2 ] * d )
    UNCHANGED( v, o ); UNCHANGED( k, ok );
}
template< class T > void normals()
{
    Vector< 3, T > a, b, c, n; vc::sym( a ); vc::sym( b ); vc::sym( c ); vc::sym( n ); auto oa = vc::save( a ), ob = vc::save( b ), oc = vc::save( c );
    T u[ 3 ], w[ 3 ]; for( size_t i = 0; i < 3; ++i ) { u[ i ] = ob[ i ] - oa[ i ]; w[ i ] = oc[ i ] - oa[ i ]; }
    const T x[ 3 ] = { u[ 1 ] * w[ 2 ] - u[ 2 ] * w[ 1 ], u[ 2 ] * w[ 0 ] - u[ 0 ] * w[ 2 ], u[ 0 ] * w[ 1 ] - u[ 1 ] * w[ 0 ] };
    const T q = x[ 0 ] * x[ 0 ] + x[ 1 ] * x[ 1 ] + x[ 2 ] * x[ 2 ];
    REQUIRES( q != T( 0 ) );
    const T l = std::sqrt( q );
    n.compute_normal( a, b, c );
    const Vector< 3, T >& ca = a; const Vector< 3, T > m = ca.compute_normal( b, c );
    for( size_t i = 0; i < 3; ++i ) { ENSURES_EQ( n.array[ i ] * l, x[ i ] ); ENSURES_EQ( m.array[ i ] * l, x[ i ] ); }
    UNCHANGED( a, oa ); UNCHANGED( b, ob ); UNCHANGED( c, oc );
}
// into one of the three corners
template< class T, int K > void normals_own()
{
    Vector< 3, T > p[ 3 ]; vc::sym( p[ 0 ] ); vc::sym( p[ 1 ] ); vc::sym( p[ 2 ] ); auto oa = vc::save( p[ 0 ] ), ob = vc::save( p[ 1 ] ), oc = vc::save( p[ 2 ] );
    T u[ 3 ], w[ 3 ]; for( size_t i = 0; i < 3; ++i ) { u[ i ] = ob[ i ] - oa[ i ]; w[ i ] = oc[ i ] - oa[ i ]; }
    const T x[ 3 ] = { u[ 1 ] * w[ 2 ] - u[ 2 ] * w[ 1 ], u[ 2 ] * w[ 0 ] - u[ 0 ] * w[ 2 ], u[ 0 ] * w[ 1 ] - u[ 1 ] * w[ 0 ] };
    const T q = x[ 0 ] * x[ 0 ] + x[ 1 ] * x[ 1 ] + x[ 2 ] * x[ 2 ];
    REQUIRES( q != T( 0 ) );
    const T l = std::sqrt( q );
    p[ K ].compute_normal( p[ 0 ], p[ 1 ], p[ 2 ] );
    for( size_t i = 0; i < 3; ++i ) ENSURES_EQ( p[ K ].array[ i ] * l, x[ i ] );
}
// about itself
template< class T > void rotated_own()
{
    Vector< 3, T > v; vc::sym_unit( v.array, 3 ); auto o = vc::save( v ); const T t = vc::any< T >();
    v = v.rotate( t, v );
    for( size_t i = 0; i < 3; ++i ) ENSURES_EQ( v.array[ i ], o[ i ] );
}
template< class T > void planes()
{
    Vector< 3, T > a, b, c; vc::sym( a ); vc::sym( b ); vc::sym( c ); auto oa = vc::save( a ), ob = vc::save( b ), oc = vc::save( c );
    T u[ 3 ], w[ 3 ]; for( size_t i = 0; i < 3; ++i ) { u[ i ] = ob[ i ] - oc[ i ]; w[ i ] = oa[ i ] - ob[ i ]; }
    const T x[ 3 ] = { u[ 1 ] * w[ 2 ] - u[ 2 ] * w[ 1 ], u[ 2 ] * w[ 0 ] - u[ 0 ] * w[ 2 ], u[ 0 ] * w[ 1 ] - u[ 1 ] * w[ 0 ] };
    const T q = x[ 0 ] * x[ 0 ] + x[ 1 ] * x[ 1 ] + x[ 2 ] * x[ 2 ];
    REQUIRES( q != T( 0 ) );
    const T l = std::sqrt( q );
    const Vector< 4, T > p = vmml::compute_plane( a, b, c );
    T s = 0;
    for( size_t i = 0; i < 3; ++i ) { ENSURES_EQ( p.array[ i ] * l, x[ i ] ); s += p.array[ i ] * p.array[ i ]; }
    ENSURES_EQ( s, T( 1 ) );
    // all three points lie in the plane
    ENSURES_EQ( ( p.array[ 0 ] * oa[ 0 ] + p.array[ 1 ] * oa[ 1 ] + p.array[ 2 ] * oa[ 2 ] + p.array[ 3 ] ) * l, T( 0 ) );
    ENSURES_EQ( ( p.array[ 0 ] * ob[ 0 ] + p.array[ 1 ] * ob[ 1 ] + p.array[ 2 ] * ob[ 2 ] + p.array[ 3 ] ) * l, T( 0 ) );
    ENSURES_EQ( ( p.array[ 0 ] * oc[ 0 ] + p.array[ 1 ] * oc[ 1 ] + p.array[ 2 ] * oc[ 2 ] + p.array[ 3 ] ) * l, T( 0 ) );
    UNCHANGED( a, oa ); UNCHANGED( b, ob ); UNCHANGED( c, oc );
}
template< class T > void sphere()
{
    Vector< 4, T > s; Vector< 3, T > p; vc::sym( s ); vc::sym( p ); auto os = vc::save( s ); auto op = vc::save( p ); const Vector< 4, T >& cs = s;
    T q = 0; for( size_t i = 0; i < 3; ++i ) q += ( op[ i ] - os[ i ] ) * ( op[ i ] - os[ i ] );
    const T d = cs.distance_to_sphere( p );
    ENSURES_EQ( ( d + os[ 3 ] ) * ( d + os[ 3 ] ), q ); ENSURES( d >= -os[ 3 ] );
    UNCHANGED( s, os ); UNCHANGED( p, op );
    REQUIRES( q != T( 0 ) );
    const T l = std::sqrt( q );
    const Vector< 3, T > r = cs.project_point_onto_sphere( p );
    T e = 0;
    for( size_t i = 0; i < 3; ++i ) { ENSURES_EQ( ( r.array[ i ] - os[ i ] ) * l, os[ 3 ] * ( op[ i ] - os[ i ] ) ); e += ( r.array[ i ] - os[ i ] ) * ( r.array[ i ] - os[ i ] ); }
    ENSURES_EQ( e, os[ 3 ] * os[ 3 ] );
    UNCHANGED( s, os ); UNCHANGED( p, op );
}
template< class T > void plane_distance()
{
    Vector< 4, T > s; Vector< 3, T > p; vc::sym( s ); vc::sym( p ); auto os = vc::save( s ); auto op = vc::save( p ); const Vector< 4, T >& cs = s;
    const T d = cs.distance_to_plane( p );
    ENSURES_EQ( d, os[ 0 ] * op[ 0 ] + os[ 1 ] * op[ 1 ] + os[ 2 ] * op[ 2 ] + os[ 3 ] );
    const Vector< 3, T > r = cs.project_point_onto_plane( p );
    for( size_t i = 0; i < 3; ++i ) ENSURES_EQ( r.array[ i ], op[ i ] - d * os[ i ] );
    UNCHANGED( s, os ); UNCHANGED( p, op );
}
template< class T > void plane_projection()
{
    Vector< 4, T > s; Vector< 3, T > p; vc::sym( p ); vc::sym_unit( s.array, 3 ); s.array[ 3 ] = vc::any< T >(); const Vector< 4, T >& cs = s;
    const Vector< 3, T > r = cs.project_point_onto_plane( p );
    ENSURES_EQ( s.array[ 0 ] * r.array[ 0 ] + s.array[ 1 ] * r.array[ 1 ] + s.array[ 2 ] * r.array[ 2 ] + s.array[ 3 ], T( 0 ) );
    ENSURES_EQ( cs.distance_to_plane( r ), T( 0 ) );
}
#define V( M ) PROVE_ALL( dot##M, dots, M ) PROVE_FD( length##M, lengths, M ) PROVE_FD( normalize##M, normalise, M )
V( 1 ) V( 2 ) V( 3 ) V( 4 ) V( 5 ) V( 6 ) V( 7 ) V( 8 ) V( 9 )
PROVE_FD( dot16, dots, 16 ) PROVE_FD( dot17, dots, 17 ) PROVE_FD( length16, lengths, 16 ) PROVE_FD( length17, lengths, 17 )
PROVE_T_FD( normalize12, normalise, 12 )
#define FD( n, f ) PROVE( n##_f, f< float > ) PROVE( n##_d, f< double > )
FD( cross, crosses ) PROVE( cross_i, crosses< int > ) PROVE( cross_u, crosses< unsigned > ) PROVE( cross_b, crosses< uint8_t > )
FD( rotate, rotated ) FD( rotate_own, rotated_own )
PROVE( normal_own0_f, normals_own< float, 0 > ) PROVE( normal_own0_d, normals_own< double, 0 > ) PROVE( normal_own1_f, normals_own< float, 1 > ) PROVE( normal_own1_d, normals_own< double, 1 > ) PROVE( normal_own2_f, normals_own< float, 2 > ) PROVE( normal_own2_d, normals_own< double, 2 > )
FD( compute_normal, normals ) FD( compute_plane, planes ) FD( sphere, sphere ) FD( plane_distance, plane_distance ) FD( plane_projection, plane_projection )

static void canary() { typedef double T; Vector< 3, T > a, b; vc::sym( a ); vc::sym( b ); auto oa = vc::save( a ), ob = vc::save( b ); const Vector< 3, T > p = a.cross( b ); ISCROSS( p, ob, oa ) }
REFUTE( cross_swapped, canary )
static void canary2() { typedef float T; Vector< 3, T > a; vc::sym( a ); const T l = a.normalize(); ENSURES( l > 0 ); }
REFUTE( normalize_zero, canary2 )

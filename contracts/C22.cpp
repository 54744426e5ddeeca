// C22: ray-sphere intersection returns the first hit exactly when one exists.
// The oracle is the definition: a surface point at distance s is o + s*d with |o + s*d - c|^2 == r^2; s ranges over ALL non-negative numbers.
// VC-CONFIG-QUICK: safe=-DVMMLIB_SAFE_ACCESSORS -DVMMLIB_THROW_EXCEPTIONS; release=-DNDEBUG
#include "vc.h"
#include <vmmlib/vector.hpp>
#include <vmmlib/intersection.hpp>
using namespace vmml;

#define LEMMA( c ) { ENSURES( c ); REQUIRES( c ); }
// squared distance of the ray point at s from the centre, minus the squared radius: zero exactly on the surface
template< class T > T surface( const T* o, const T* d, const T* c, T s )
{
    T q = 0; for( size_t i = 0; i < 3; ++i ) { const T x = o[ i ] + s * d[ i ] - c[ i ]; q += x * x; }
    return q - c[ 3 ] * c[ 3 ];
}
template< class T > struct Ray
{
    Vector< 3, T > o, d; Vector< 4, T > c; T e[ 3 ];
    // any origin, any unit direction, any centre (written as origin + offset) and any radius >= 0
    Ray() { vc::sym( o ); vc::sym_unit( d.array, 3 ); for( size_t i = 0; i < 3; ++i ) { e[ i ] = vc::any< T >(); c.array[ i ] = o.array[ i ] + e[ i ]; } c.array[ 3 ] = vc::any< T >(); REQUIRES( c.array[ 3 ] >= T( 0 ) ); }
    T f( T s ) const { return surface( o.array, d.array, c.array, s ); }
};
template< class T > void first_hit()
{
    Ray< T > R; T t = vc::any< T >(); const T t0 = t; const T s = vc::any< T >(); REQUIRES( s >= T( 0 ) );
    T p = 0, q = 0; for( size_t i = 0; i < 3; ++i ) { p += R.e[ i ] * R.d.array[ i ]; q += R.e[ i ] * R.e[ i ]; } const T r2 = R.c.array[ 3 ] * R.c.array[ 3 ];
    auto oc = vc::save( R.c );
    const Intersection< T > x( R.o, R.d ); const bool hit = x.test_sphere( R.c, t );
    UNCHANGED( R.c, oc );
    ENSURES_EQ( R.f( s ), ( s - p ) * ( s - p ) - ( r2 - ( q - p * p ) ) );
    if( hit )
    {
        vc_cover( "hit" );
        ENSURES( t >= T( 0 ) );
        ENSURES( vc::eq( R.f( t ), T( 0 ) ) );
        ENSURES( !( R.f( s ) == T( 0 ) ) || t <= s || ( q == r2 && s == T( 0 ) ) );
    }
    else
    {
        vc_cover( "miss" );
        ENSURES( t == t0 );
        ENSURES( R.f( s ) != T( 0 ) );
    }
}
#define FD( n, f ) PROVE( n##_f, f< float > ) PROVE( n##_d, f< double > )
FD( first_hit, first_hit )
// the length of the direction is irrelevant: the ray is normalised at construction
template< class T > void any_direction()
{
    Ray< T > R; const T k = vc::any< T >(); REQUIRES( k > T( 0 ) ); Vector< 3, T > v; for( size_t i = 0; i < 3; ++i ) v.array[ i ] = k * R.d.array[ i ];
    auto ov = vc::save( v ); auto oo = vc::save( R.o );
    T t = vc::any< T >(), u = t; const Intersection< T > x( R.o, R.d ), y( R.o, v );
    const bool a = x.test_sphere( R.c, t ), b = y.test_sphere( R.c, u );
    ENSURES( a == b ); ENSURES_EQ( t, u ); UNCHANGED( v, ov ); UNCHANGED( R.o, oo );
}
FD( any_direction, any_direction )
// every non-zero direction is a positive multiple of a unit one
template< class T > void unit_multiple()
{
    T v[ 3 ], l = 0; vc::sym( v ); for( size_t i = 0; i < 3; ++i ) l += v[ i ] * v[ i ]; REQUIRES( l > T( 0 ) );
    const T k = std::sqrt( l ); ENSURES( k > T( 0 ) ); T s = 0; for( size_t i = 0; i < 3; ++i ) { const T d = v[ i ] / k; s += d * d; ENSURES_EQ( k * d, v[ i ] ); } ENSURES_EQ( s, T( 1 ) );
}
FD( unit_multiple, unit_multiple )
// asking twice gives the same answer (the ray is not modified)
template< class T > void repeatable()
{
    Ray< T > R; const Intersection< T > x( R.o, R.d ); T t = vc::any< T >(), u = t; const Vector< 4, T > c( R.c );
    const bool a = x.test_sphere( c, t ), b = x.test_sphere( c, u ); ENSURES( a == b ); ENSURES( t == u );
}
FD( repeatable, repeatable )

// a hit is not always the nearer root: rays starting inside hit the far side
static void canary()
{
    typedef double T; Ray< T > R; T t = T( 0 ); T p = 0; for( size_t i = 0; i < 3; ++i ) p += R.e[ i ] * R.d.array[ i ];
    const Intersection< T > x( R.o, R.d ); ENSURES( !x.test_sphere( R.c, t ) || t <= p );
}
REFUTE( near_root, canary )
static void canary2()
{
    typedef float T; Ray< T > R; T t = T( 0 ); T q = 0; for( size_t i = 0; i < 3; ++i ) q += R.e[ i ] * R.e[ i ];
    const Intersection< T > x( R.o, R.d ); ENSURES( x.test_sphere( R.c, t ) == ( q <= R.c.array[ 3 ] * R.c.array[ 3 ] ) );
}
REFUTE( only_inside, canary2 )

// C18: spherical interpolation stays on the short arc between its end points
#include "vc.h"
#include <vmmlib/vector.hpp>
#include <vmmlib/matrix.hpp>
#include <vmmlib/quaternion.hpp>
using namespace vmml;
#define ELT( q, e ) for( size_t i = 0; i < 4; ++i ) ENSURES_EQ( ( q ).array[ i ], T( e ) )
template< class T, class A, class B > T dot4( const A& a, const B& b ) { return a[ 0 ] * b[ 0 ] + a[ 1 ] * b[ 1 ] + a[ 2 ] * b[ 2 ] + a[ 3 ] * b[ 3 ]; }
template< class T > Quaternion< T > interpolate( T a, const Quaternion< T >& p, const Quaternion< T >& q, T* eps )
{ if( eps ) return Quaternion< T >::slerp( a, p, q, *eps ); return Quaternion< T >::slerp( a, p, q ); }
template< class T > T* tolerance( bool given, T& e )
{
    e = T( 1e-13 ); if( !given ) return 0;
    e = vc::any< T >(); if( vc_random() ) e = T( 0.01 ); REQUIRES( e > T( 0 ) ); REQUIRES( e < T( 0.5 ) ); return &e;
}
template< class T, bool G > void ends()
{
    Quaternion< T > p, q; vc::sym_unit( p.array, 4 ); vc::sym_unit( q.array, 4 ); auto op = vc::save( p ), oq = vc::save( q ); T e; T* pe = tolerance( G, e );
    const T d = dot4< T >( op, oq );
    const Quaternion< T > r = interpolate< T >( T( 0 ), p, q, pe ), s = interpolate< T >( T( 1 ), p, q, pe );
    UNCHANGED( p, op ); UNCHANGED( q, oq );
    ELT( r, op[ i ] ); ELT( s, d < T( 0 ) ? -oq[ i ] : oq[ i ] );
}
// inputs that are not nearly equal: the angle to the first is a times the total angle theta, cos(theta) = |p.q|, 0 < theta <= pi/2
template< class T, bool G > void arc()
{
    Quaternion< T > p, q; vc::sym_unit( p.array, 4 ); vc::sym_unit( q.array, 4 ); auto op = vc::save( p ), oq = vc::save( q ); T e; T* pe = tolerance( G, e );
    const T a = vc_random() ? vc::any< T >() / T( 1e3 ) : vc::any< T >(); REQUIRES( a >= T( 0 ) ); REQUIRES( a <= T( 1 ) );
    const T d = dot4< T >( op, oq ), c = d < T( 0 ) ? -d : d, sg = d < T( 0 ) ? T( -1 ) : T( 1 );
    REQUIRES( !vc_random() || c < T( 0.99 ) );
    REQUIRES( c < T( 1. - e ) );
    const T s = std::sqrt( 1 - c * c ), t = std::atan2( s, c );
    const Quaternion< T > r = interpolate< T >( a, p, q, pe );
    UNCHANGED( p, op ); UNCHANGED( q, oq );
    ENSURES_EQ( dot4< T >( r.array, r.array ), T( 1 ) );
    ENSURES_EQ( dot4< T >( r.array, op ), std::cos( a * t ) );
    ENSURES_EQ( dot4< T >( r.array, oq ) * sg, std::cos( t - a * t ) );
    // in the plane of the two, between them: both coefficients are sines of angles in [0,pi/2]
    ELT( r, ( std::sin( t - a * t ) * op[ i ] + std::sin( a * t ) * sg * oq[ i ] ) / s );
    vc_cover( "arc" );
}
template< class T, bool G > void symmetric()
{
    Quaternion< T > p, q; vc::sym_unit( p.array, 4 ); vc::sym_unit( q.array, 4 ); T e; T* pe = tolerance( G, e );
    const T a = vc_random() ? vc::any< T >() / T( 1e3 ) : vc::any< T >(); REQUIRES( a >= T( 0 ) ); REQUIRES( a <= T( 1 ) );
    const T d = dot4< T >( p.array, q.array );
    const Quaternion< T > r = interpolate< T >( a, p, q, pe ), s = interpolate< T >( 1 - a, q, p, pe );
    ELT( s, d < T( 0 ) ? -r.array[ i ] : r.array[ i ] );
}
// nearly equal inputs: still a unit quaternion, a positive combination of the two
template< class T, bool G > void close()
{
    Quaternion< T > p, q; vc::sym_unit( p.array, 4 ); vc::sym_unit( q.array, 4 );
    if( vc_random() ) { T s = 0; for( size_t i = 0; i < 4; ++i ) { q.array[ i ] = p.array[ i ] + q.array[ i ] / 20; s += q.array[ i ] * q.array[ i ]; } for( size_t i = 0; i < 4; ++i ) q.array[ i ] /= std::sqrt( s ); }
    auto op = vc::save( p ), oq = vc::save( q ); T e; T* pe = tolerance( G, e );
    const T a = vc::any< T >(); REQUIRES( a >= T( 0 ) ); REQUIRES( a <= T( 1 ) );
    const T d = dot4< T >( op, oq ), c = d < T( 0 ) ? -d : d, sg = d < T( 0 ) ? T( -1 ) : T( 1 );
    REQUIRES( c >= T( 1. - e ) ); REQUIRES( c <= T( 1 ) );
    const Quaternion< T > r = interpolate< T >( a, p, q, pe );
    UNCHANGED( p, op ); UNCHANGED( q, oq );
    ENSURES_EQ( dot4< T >( r.array, r.array ), T( 1 ) );
    const T l = ( 1 - a ) * ( 1 - a ) + a * a + 2 * a * ( 1 - a ) * c;
    ELT( r, ( ( 1 - a ) * op[ i ] + a * sg * oq[ i ] ) / std::sqrt( l ) );
}
#define FD( n ) PROVE( n##_f, n< float, false > ) PROVE( n##_d, n< double, false > ) PROVE( n##_tol_f, n< float, true > ) PROVE( n##_tol_d, n< double, true > )
FD( ends ) FD( arc ) FD( symmetric ) FD( close )

static void canary() { typedef double T; Quaternion< T > p, q; vc::sym_unit( p.array, 4 ); vc::sym_unit( q.array, 4 ); const Quaternion< T > s = Quaternion< T >::slerp( T( 1 ), p, q ); ELT( s, q.array[ i ] ); }
REFUTE( long_way, canary )
static void canary2() { typedef float T; Quaternion< T > p, q; vc::sym_unit( p.array, 4 ); vc::sym_unit( q.array, 4 ); const Quaternion< T > s = Quaternion< T >::slerp( T( 0.5 ), p, q ); ELT( s, ( p.array[ i ] + q.array[ i ] ) / 2 ); }
REFUTE( linear, canary2 )

// C16: quaternion arithmetic is Hamilton algebra.  Storage order is x, y, z, w (real part last).
// VC-CONFIG-QUICK: release=-DNDEBUG
#include "vc.h"
#include <vmmlib/vector.hpp>
#include <vmmlib/matrix.hpp>
#include <vmmlib/quaternion.hpp>
using namespace vmml;

#define IS4( q, X, Y, Z, W ) ENSURES_EQ( ( q ).array[ 0 ], T( X ) ); ENSURES_EQ( ( q ).array[ 1 ], T( Y ) ); ENSURES_EQ( ( q ).array[ 2 ], T( Z ) ); ENSURES_EQ( ( q ).array[ 3 ], T( W ) );
#define ELT( q, e ) for( size_t i = 0; i < 4; ++i ) ENSURES_EQ( ( q ).array[ i ], T( e ) )
// (a0 i + a1 j + a2 k + a3)(b0 i + b1 j + b2 k + b3)
#define HAMILTON( q, a, b ) IS4( q, a[ 3 ] * b[ 0 ] + a[ 0 ] * b[ 3 ] + a[ 1 ] * b[ 2 ] - a[ 2 ] * b[ 1 ], a[ 3 ] * b[ 1 ] - a[ 0 ] * b[ 2 ] + a[ 1 ] * b[ 3 ] + a[ 2 ] * b[ 0 ], \
                                   a[ 3 ] * b[ 2 ] + a[ 0 ] * b[ 1 ] - a[ 1 ] * b[ 0 ] + a[ 2 ] * b[ 3 ], a[ 3 ] * b[ 3 ] - a[ 0 ] * b[ 0 ] - a[ 1 ] * b[ 1 ] - a[ 2 ] * b[ 2 ] )
template< class T > T norm2( const Quaternion< T >& q ) { T s = 0; for( size_t i = 0; i < 4; ++i ) s += q.array[ i ] * q.array[ i ]; return s; }

template< class T > void construction()
{
    typedef Quaternion< T > Q;
    const T x = vc::any< T >(), y = vc::any< T >(), z = vc::any< T >(), w = vc::any< T >();
    Q d; IS4( d, 0, 0, 0, 1 )
    Q a( x, y, z, w ); IS4( a, x, y, z, w )
    Vector< 3, T > v; vc::sym( v ); auto ov = vc::save( v );
    Q b( v, w ); IS4( b, ov[ 0 ], ov[ 1 ], ov[ 2 ], w )
    Q c( v ); IS4( c, ov[ 0 ], ov[ 1 ], ov[ 2 ], 0 )
    Q s; vc::sym( s ); s.set( x, y, z, w ); IS4( s, x, y, z, w )
    s.set( v, z ); IS4( s, ov[ 0 ], ov[ 1 ], ov[ 2 ], z )
    UNCHANGED( v, ov );
    s = a; IS4( s, x, y, z, w ) IS4( a, x, y, z, w )
    const Q e( a ); IS4( e, x, y, z, w )
    Vector< 4, T > f; vc::sym( f ); auto of = vc::save( f ); s = f; ELT( s, of[ i ] ); UNCHANGED( f, of );
    s.zero(); IS4( s, 0, 0, 0, 0 )
    s.identity(); IS4( s, 0, 0, 0, 1 )
    s = s; IS4( s, 0, 0, 0, 1 )
    IS4( Q::IDENTITY, 0, 0, 0, 1 ) IS4( Q::QUATERI, 1, 0, 0, 0 ) IS4( Q::QUATERJ, 0, 1, 0, 0 ) IS4( Q::QUATERK, 0, 0, 1, 0 )
    ENSURES( a.x() == x ); ENSURES( a.y() == y ); ENSURES( a.z() == z ); ENSURES( a.w() == w ); for( size_t i = 0; i < 4; ++i ) { ENSURES( a.at( i ) == a.array[ i ] ); ENSURES( a( i ) == a.array[ i ] ); }
}
template< class T > void sums()
{
    Quaternion< T > a, b; vc::sym( a ); vc::sym( b ); auto oa = vc::save( a ), ob = vc::save( b ); const Quaternion< T > &ca = a, &cb = b; const T s = vc::any< T >();
    const Quaternion< T > p = ca + cb, m = ca - cb, k = ca * s, n = -ca, j = ca.get_conjugate();
    ELT( p, oa[ i ] + ob[ i ] ); ELT( m, oa[ i ] - ob[ i ] ); ELT( k, oa[ i ] * s ); ELT( n, -oa[ i ] ); ELT( j, i < 3 ? -oa[ i ] : oa[ i ] );
    const T d = ca.dot( cb ), e = Quaternion< T >::dot( ca, cb ), q = ca.squared_abs(), l = ca.abs();
    T od = 0, oq = 0; for( size_t i = 0; i < 4; ++i ) { od += oa[ i ] * ob[ i ]; oq += oa[ i ] * oa[ i ]; }
    ENSURES_EQ( d, od ); ENSURES_EQ( e, od ); ENSURES_EQ( q, oq ); ENSURES( l >= T( 0 ) ); ENSURES_EQ( l * l, oq );
    const Vector< 3, T > x = ca.cross( cb );
    for( size_t i = 0; i < 3; ++i ) ENSURES_EQ( x.array[ i ], oa[ ( i + 1 ) % 3 ] * ob[ ( i + 2 ) % 3 ] - oa[ ( i + 2 ) % 3 ] * ob[ ( i + 1 ) % 3 ] );
    UNCHANGED( a, oa ); UNCHANGED( b, ob );
    Quaternion< T > c( a ); c += b; ELT( c, oa[ i ] + ob[ i ] ); c = a; c -= b; ELT( c, oa[ i ] - ob[ i ] ); c = a; c *= s; ELT( c, oa[ i ] * s );
    c = a; c.conjugate(); ELT( c, i < 3 ? -oa[ i ] : oa[ i ] );
    c = a; c += c; ELT( c, 2 * oa[ i ] ); c = a; c -= c; ELT( c, 0 );
    UNCHANGED( a, oa ); UNCHANGED( b, ob );
}
template< class T > void products()
{
    Quaternion< T > a, b; vc::sym( a ); vc::sym( b ); auto oa = vc::save( a ), ob = vc::save( b ); const Quaternion< T > &ca = a, &cb = b;
    const Quaternion< T > p = ca * cb, sq = ca * ca; HAMILTON( p, oa, ob ) HAMILTON( sq, oa, oa )
    ENSURES_EQ( norm2( p ), norm2( a ) * norm2( b ) );
    UNCHANGED( a, oa ); UNCHANGED( b, ob );
    Quaternion< T > c( a ); c *= b; HAMILTON( c, oa, ob )
    Quaternion< T > d( a ); d *= d; HAMILTON( d, oa, oa )
    UNCHANGED( a, oa ); UNCHANGED( b, ob );
    // conjugation reverses products; a conjugate times the quaternion is its squared magnitude
    const Quaternion< T > l = p.get_conjugate(), r = cb.get_conjugate() * ca.get_conjugate(), n = ca.get_conjugate() * ca;
    ELT( l, r.array[ i ] ); IS4( n, 0, 0, 0, norm2( a ) )
}
template< class T > void laws()
{
    typedef Quaternion< T > Q; Q a, b, c; vc::sym( a ); vc::sym( b ); vc::sym( c ); const T s = vc::any< T >();
    const Q l = ( a * b ) * c, r = a * ( b * c ); ELT( l, r.array[ i ] );
    const Q u = a * ( b + c ), v = a * b + a * c; ELT( u, v.array[ i ] );
    const Q x = ( a + b ) * c, y = a * c + b * c; ELT( x, y.array[ i ] );
    const Q k = ( a * s ) * b, m = ( a * b ) * s; ELT( k, m.array[ i ] );
    const Q e = a * Q::IDENTITY, f = Q::IDENTITY * a; ELT( e, a.array[ i ] ); ELT( f, a.array[ i ] );
    const Q ij = Q::QUATERI * Q::QUATERJ, ii = Q::QUATERI * Q::QUATERI, ji = Q::QUATERJ * Q::QUATERI; IS4( ij, 0, 0, 1, 0 ) IS4( ii, 0, 0, 0, -1 ) IS4( ji, 0, 0, -1, 0 )
}
template< class T > void division()
{
    Quaternion< T > a; vc::sym( a ); auto oa = vc::save( a ); const Quaternion< T >& ca = a; const T s = vc::any< T >();
    bool threw = false, threw2 = false; Quaternion< T > q, c( a );
    try { q = ca / s; } catch( ... ) { threw = true; }
    try { c /= s; } catch( ... ) { threw2 = true; }
    ENSURES( threw == ( s == T( 0 ) ) ); ENSURES( threw2 == ( s == T( 0 ) ) );
    if( s == T( 0 ) ) { UNCHANGED( c, oa ); }
    else { ELT( q, oa[ i ] / s ); ELT( c, oa[ i ] / s ); }
    UNCHANGED( a, oa );
}
template< class T > void inverses()
{
    Quaternion< T > a; vc::sym( a ); auto oa = vc::save( a ); const T q = norm2( a ); REQUIRES( q != T( 0 ) );
    const Quaternion< T > n = a.inverse();
    UNCHANGED( a, oa );
    ELT( n, ( i < 3 ? -oa[ i ] : oa[ i ] ) / q );
    const Quaternion< T > l = n * a, r = a * n; IS4( l, 0, 0, 0, 1 ) IS4( r, 0, 0, 0, 1 )
}
template< class T > void normalising()
{
    Quaternion< T > a; vc::sym( a ); auto oa = vc::save( a ); const Quaternion< T >& ca = a; const T q = norm2( a );
    const Quaternion< T > n = ca.get_normalized();
    UNCHANGED( a, oa );
    a.normalize();
    if( q == T( 0 ) ) { UNCHANGED( a, oa ); UNCHANGED( n, oa ); return; }
    const T l = std::sqrt( q );
    ELT( a, oa[ i ] / l ); ELT( n, oa[ i ] / l ); ENSURES_EQ( norm2( a ), T( 1 ) ); ENSURES_EQ( norm2( n ), T( 1 ) );
}
template< class T > void with_vectors()
{
    Quaternion< T > a; Vector< 3, T > v; vc::sym( a ); vc::sym( v ); auto oa = vc::save( a ); auto ov = vc::save( v ); const Quaternion< T >& ca = a; const Vector< 3, T >& cv = v;
    const T b[ 4 ] = { ov[ 0 ], ov[ 1 ], ov[ 2 ], 0 };
    const Quaternion< T > p = ca + cv, m = ca - cv, h = ca * cv;
    ELT( p, oa[ i ] + b[ i ] ); ELT( m, oa[ i ] - b[ i ] ); HAMILTON( h, oa, b )
    UNCHANGED( a, oa ); UNCHANGED( v, ov );
    Quaternion< T > c( a ); c += v; ELT( c, oa[ i ] + b[ i ] ); c = a; c -= v; ELT( c, oa[ i ] - b[ i ] ); c = a; c *= v; HAMILTON( c, oa, b )
    UNCHANGED( a, oa ); UNCHANGED( v, ov );
}
template< class T > void comparison()
{
    Quaternion< T > a, b; vc::sym( a ); vc::sym( b ); auto oa = vc::save( a ), ob = vc::save( b ); const Quaternion< T > &ca = a, &cb = b;
    bool same = true; for( size_t i = 0; i < 4; ++i ) same = same && oa[ i ] == ob[ i ];
    ENSURES( ( ca == cb ) == same ); ENSURES( ( ca != cb ) == !same ); ENSURES( ca == ca ); ENSURES( !( ca != ca ) );
    Vector< 4, T > v; for( size_t i = 0; i < 4; ++i ) v.array[ i ] = ob[ i ];
    ENSURES( ( ca == v ) == same ); ENSURES( ( ca != v ) == !same );
    const T s = vc::any< T >(); const bool real = oa[ 0 ] == T( 0 ) && oa[ 1 ] == T( 0 ) && oa[ 2 ] == T( 0 ) && oa[ 3 ] == s;
    ENSURES( ( ca == s ) == real ); ENSURES( ( ca != s ) == !real );
    const T e = std::numeric_limits< T >::epsilon(), d = vc::any< T >(); bool within = true, close = true;
    for( size_t i = 0; i < 4; ++i ) { const T x = oa[ i ] - ob[ i ]; within = within && x <= d && -x <= d; close = close && x <= e && -x <= e; }
    ENSURES( a.is_akin( cb, d ) == within ); ENSURES( a.is_akin( cb ) == close );
    UNCHANGED( a, oa ); UNCHANGED( b, ob );
}
template< class T > void one_difference()
{
    Quaternion< T > a; vc::sym( a ); Quaternion< T > b( a ); const size_t k = vc_size( 0, 3 ); const T v = vc::any< T >();
    ENSURES( a == b ); REQUIRES( v != a.array[ k ] ); b.array[ k ] = v; ENSURES( a != b ); ENSURES( !( a == b ) );
}
// combined with one of its own components
template< class T > void own()
{
    Quaternion< T > a; vc::sym( a ); auto o = vc::save( a );
    for( size_t k = 0; k < 4; ++k )
    {
        Quaternion< T > c( a ); c *= c.array[ k ]; ELT( c, o[ i ] * o[ k ] );
        Quaternion< T > e( a ); e = e * e.array[ k ]; ELT( e, o[ i ] * o[ k ] );
        if( o[ k ] != T( 0 ) ) { Quaternion< T > d( a ); d /= d.array[ k ]; ELT( d, o[ i ] / o[ k ] ); d = a; d = d / d.array[ k ]; ELT( d, o[ i ] / o[ k ] ); }
    }
    Quaternion< T > b( a ); b.set( b.array[ 3 ], b.array[ 0 ], b.array[ 1 ], b.array[ 2 ] ); IS4( b, o[ 3 ], o[ 0 ], o[ 1 ], o[ 2 ] )
    b = a; b = b * b; HAMILTON( b, o, o )
    b = a; b = -b; ELT( b, -o[ i ] ); b = a; b = b + b; ELT( b, o[ i ] + o[ i ] ); b = a; b = b.get_conjugate(); ELT( b, i < 3 ? -o[ i ] : o[ i ] );
}
#define FD( n, f ) PROVE( n##_f, f< float > ) PROVE( n##_d, f< double > )
FD( construction, construction ) FD( sums, sums ) FD( products, products ) FD( laws, laws ) FD( division, division ) FD( inverse, inverses ) FD( normalize, normalising )
FD( own, own ) FD( with_vectors, with_vectors ) FD( comparison, comparison ) FD( one_difference, one_difference )

static void canary() { typedef double T; Quaternion< T > a, b; vc::sym( a ); vc::sym( b ); const Quaternion< T > p = a * b, q = b * a; ELT( p, q.array[ i ] ); }
REFUTE( product_commutes, canary )
static void canary2() { typedef float T; Quaternion< T > a, b; vc::sym( a ); vc::sym( b ); ENSURES_EQ( ( a + b ).abs(), a.abs() + b.abs() ); }
REFUTE( magnitudes_add, canary2 )

// C19: bounding boxes contain exactly what was merged into them
// VC-CONFIG-QUICK: release=-DNDEBUG
#include "vc.h"
#include <vmmlib/vector.hpp>
#include <vmmlib/aabb.hpp>
using namespace vmml;

// raw access to the corners
template< class T > struct Box : public AABB< T >
{
    Box() : AABB< T >() {}
    Box( const AABB< T >& a ) : AABB< T >( a ) {}
    T* lo() { return lower( this, 0 ); }
    T* hi() { return upper( this, 0 ); }
private:
    // the members where they are called so, the writable accessors otherwise
    template< class B > static auto lower( B* b, int ) -> decltype( &b->_min.array[ 0 ] ) { return b->_min.array; }
    template< class B > static auto upper( B* b, int ) -> decltype( &b->_max.array[ 0 ] ) { return b->_max.array; }
    template< class B > static T* lower( B* b, long ) { return b->getMin().array; }
    template< class B > static T* upper( B* b, long ) { return b->getMax().array; }
};
template< class T > struct Corners
{
    T lo[ 3 ], hi[ 3 ];
    Corners() {}
    Corners( Box< T >& b ) { for( size_t i = 0; i < 3; ++i ) { lo[ i ] = b.lo()[ i ]; hi[ i ] = b.hi()[ i ]; } }
    Corners( const AABB< T >& a ) { Box< T > b( a ); for( size_t i = 0; i < 3; ++i ) { lo[ i ] = b.lo()[ i ]; hi[ i ] = b.hi()[ i ]; } }
    bool has( const T* p, size_t n = 3 ) const { bool r = true; for( size_t i = 0; i < n; ++i ) r = r && lo[ i ] <= p[ i ] && p[ i ] <= hi[ i ]; return r; }
};
template< class T, bool S = false > T finite() { const T x = S ? vc::tame< T >() : vc::any< T >(); REQUIRES( x <= std::numeric_limits< T >::max() ); REQUIRES( x >= std::numeric_limits< T >::lowest() ); return x; }
// S: sums and differences are representable
template< bool S = false, class T > void sym_corners( Box< T >& b ) { for( size_t i = 0; i < 3; ++i ) { b.lo()[ i ] = finite< T, S >(); b.hi()[ i ] = finite< T, S >(); } }
// a box with minimum <= maximum in every axis
template< bool S = false, class T > void sym_box( Box< T >& b )
{
    sym_corners< S >( b );
    for( size_t i = 0; i < 3; ++i )
    {
        if( vc_random() && b.lo()[ i ] > b.hi()[ i ] ) { const T t = b.lo()[ i ]; b.lo()[ i ] = b.hi()[ i ]; b.hi()[ i ] = t; }
        REQUIRES( b.lo()[ i ] <= b.hi()[ i ] );
    }
}
template< class T > void sym_point( Vector< 3, T >& p ) { for( size_t i = 0; i < 3; ++i ) p.array[ i ] = finite< T >(); }
template< class T > T mn( T a, T b ) { return b < a ? b : a; }
template< class T > T mx( T a, T b ) { return a < b ? b : a; }
#define SAME_BOX( b, o ) for( size_t i = 0; i < 3; ++i ) { ENSURES( ( b ).lo()[ i ] == ( o ).lo[ i ] ); ENSURES( ( b ).hi()[ i ] == ( o ).hi[ i ] ); }
#define BOX_IS( b, l, h ) { const Corners< T > c_( b ); for( size_t i = 0; i < 3; ++i ) { ENSURES_EQ( c_.lo[ i ], T( l ) ); ENSURES_EQ( c_.hi[ i ], T( h ) ); } }

template< class T > void merge_point()
{
    Box< T > b; sym_box( b ); const Corners< T > o( b ); Vector< 3, T > p, q; sym_point( p ); sym_point( q ); auto op = vc::save( p ); const T* qa = q.array;
    b.merge( p );
    BOX_IS( b, mn( o.lo[ i ], op[ i ] ), mx( o.hi[ i ], op[ i ] ) );
    UNCHANGED( p, op );
    ENSURES( b.isIn( p ) );
    if( o.has( qa ) ) ENSURES( b.isIn( q ) );
    // any box that contains the old one and the point contains the new one
    Box< T > e; sym_box( e ); const Corners< T > ce( e ), cb( b ); bool all = ce.has( op.v ) && ce.has( o.lo ) && ce.has( o.hi );
    if( all ) ENSURES( ce.has( cb.lo ) && ce.has( cb.hi ) );
    vc_cover( "merged" );
}
template< class T > void merge_box()
{
    Box< T > a, b; sym_box( a ); sym_box( b ); const Corners< T > oa( a ), ob( b );
    Box< T > c( a ), d( b );
    c.merge( b ); d.merge( a );
    BOX_IS( c, mn( oa.lo[ i ], ob.lo[ i ] ), mx( oa.hi[ i ], ob.hi[ i ] ) );
    BOX_IS( d, mn( oa.lo[ i ], ob.lo[ i ] ), mx( oa.hi[ i ], ob.hi[ i ] ) );
    SAME_BOX( a, oa ); SAME_BOX( b, ob );
    Vector< 3, T > q; sym_point( q );
    if( oa.has( q.array ) || ob.has( q.array ) ) { ENSURES( c.isIn( q ) ); ENSURES( d.isIn( q ) ); }
    c = a; c.merge( c ); SAME_BOX( c, oa );
}
// with one of its own corners: nothing changes
template< class T > void merge_own()
{
    Box< T > a; sym_box( a ); const Corners< T > o( a );
    a.merge( a.getMin() ); SAME_BOX( a, o ); a.merge( a.getMax() ); SAME_BOX( a, o );
}
template< class T, int HOW > void make_empty( Box< T >& b )
{
    if( HOW == 0 ) b = AABB< T >(); else { sym_corners( b ); b.setEmpty(); }
}
template< class T, int HOW > void from_empty()
{
    Box< T > b; make_empty< T, HOW >( b );
    ENSURES( b.isEmpty() );
    Vector< 3, T > p, q; sym_point( p ); sym_point( q ); auto op = vc::save( p ), oq = vc::save( q );
    Box< T > c( b ), d( b ), s( b );
    s.merge( p ); BOX_IS( s, op[ i ], op[ i ] ); ENSURES( s.isIn( p ) );
    c.merge( p ); c.merge( q ); d.merge( q ); d.merge( p );
    BOX_IS( c, mn( op[ i ], oq[ i ] ), mx( op[ i ], oq[ i ] ) ); BOX_IS( d, mn( op[ i ], oq[ i ] ), mx( op[ i ], oq[ i ] ) );
    // an empty box adds nothing; merging into an empty box copies
    Box< T > x; sym_box( x ); const Corners< T > ox( x ); const Corners< T > ob( b );
    Box< T > y( x ), z( b ); y.merge( b ); SAME_BOX( y, ox ); SAME_BOX( b, ob );
    z.merge( x ); SAME_BOX( z, ox ); SAME_BOX( x, ox );
    if( !x.isEmpty() ) vc_cover( "not empty" );
}
template< class T > void containment()
{
    Box< T > b; sym_corners( b ); const Corners< T > o( b ); Vector< 3, T > p; sym_point( p ); auto op = vc::save( p );
    ENSURES( b.isIn( p ) == o.has( op.v ) );
    ENSURES( b.isIn2d( p ) == o.has( op.v, 2 ) );
    bool e = false; for( size_t i = 0; i < 3; ++i ) e = e || o.lo[ i ] >= o.hi[ i ];
    ENSURES( b.isEmpty() == e );
    SAME_BOX( b, o ); UNCHANGED( p, op );
    if( o.has( op.v ) ) vc_cover( "inside" );
}
template< class T > T radius() { T r = finite< T, true >(); if( vc_random() && r < T( 0 ) ) r = -r; REQUIRES( r >= T( 0 ) ); return r; }
// every component's sum and difference with the radius is representable
template< class T > T centre( T r )
{
    const T c = finite< T, true >();
    if( std::numeric_limits< T >::is_integer && !std::numeric_limits< T >::is_signed ) { REQUIRES( c >= r ); REQUIRES( c <= std::numeric_limits< T >::max() - r ); }
    return c;
}
template< class T > void sphere()
{
    Vector< 4, T > s; s.array[ 3 ] = radius< T >(); for( size_t i = 0; i < 3; ++i ) s.array[ i ] = centre( s.array[ 3 ] ); auto o = vc::save( s );
    const AABB< T > b( s );
    BOX_IS( b, o[ i ] - o[ 3 ], o[ i ] + o[ 3 ] );
    UNCHANGED( s, o );
    Box< T > c; sym_corners( c ); const Corners< T > oc( c );
    bool in = true; for( size_t i = 0; i < 3; ++i ) in = in && oc.lo[ i ] <= T( o[ i ] - o[ 3 ] ) && T( o[ i ] + o[ 3 ] ) <= oc.hi[ i ];
    ENSURES( c.isIn( s ) == in );
    SAME_BOX( c, oc ); UNCHANGED( s, o );
    if( in ) vc_cover( "inside" );
}
// the containment test for spheres is the one for all their points (real geometry)
template< class T > void sphere_points()
{
    Vector< 4, T > s; s.array[ 3 ] = radius< T >(); for( size_t i = 0; i < 3; ++i ) s.array[ i ] = vc::any< T >();
    Box< T > b; sym_corners( b );
    T p[ 3 ], d = 0; for( size_t i = 0; i < 3; ++i ) { p[ i ] = vc::any< T >(); d += ( p[ i ] - s.array[ i ] ) * ( p[ i ] - s.array[ i ] ); }
    const bool in = d <= s.array[ 3 ] * s.array[ 3 ];
    if( in && b.isIn( s ) ) ENSURES( b.isIn( Vector< 3, T >( p[ 0 ], p[ 1 ], p[ 2 ] ) ) );
}
template< class T > void construct()
{
    Vector< 3, T > l, h; sym_point( l ); sym_point( h ); auto ol = vc::save( l ), oh = vc::save( h );
    const AABB< T > b( l, h ); BOX_IS( b, ol[ i ], oh[ i ] ); UNCHANGED( l, ol ); UNCHANGED( h, oh );
    Box< T > c; sym_corners( c ); const Corners< T > o( c );
    c.setMin( l ); { for( size_t i = 0; i < 3; ++i ) { ENSURES( c.lo()[ i ] == ol[ i ] ); ENSURES( c.hi()[ i ] == o.hi[ i ] ); } }
    c = Box< T >( b ); Box< T > d; sym_corners( d ); const Corners< T > od( d );
    d.setMax( h ); { for( size_t i = 0; i < 3; ++i ) { ENSURES( d.lo()[ i ] == od.lo[ i ] ); ENSURES( d.hi()[ i ] == oh[ i ] ); } }
    Box< T > e; sym_corners( e ); e.set( l, h ); BOX_IS( e, ol[ i ], oh[ i ] ); UNCHANGED( l, ol ); UNCHANGED( h, oh );
    const AABB< T >& ce = e; ENSURES( &ce.getMin() == &e.getMin() ); ENSURES( &ce.getMax() == &e.getMax() );
    ENSURES( ce.getMin().array == e.lo() ); ENSURES( ce.getMax().array == e.hi() );
    BOX_IS( AABB< T >::makeUnitBox(), 0, 1 );
}
template< class T > void construct_centre()
{
    const T r = radius< T >(); T c[ 3 ]; for( size_t i = 0; i < 3; ++i ) c[ i ] = centre( r );
    const AABB< T > b( c[ 0 ], c[ 1 ], c[ 2 ], r ); BOX_IS( b, c[ i ] - r, c[ i ] + r );
    Box< T > e; sym_corners( e ); e.set( c[ 0 ], c[ 1 ], c[ 2 ], r ); BOX_IS( e, c[ i ] - r, c[ i ] + r );
}
template< class T > void queries()
{
    Box< T > b; sym_box< true >( b ); const Corners< T > o( b ); const AABB< T >& cb = b;
    const Vector< 3, T > c = cb.getCenter(), d = cb.getDimension();
    for( size_t i = 0; i < 3; ++i )
    {
        ENSURES_EQ( d.array[ i ], T( o.hi[ i ] - o.lo[ i ] ) );
        if( std::numeric_limits< T >::is_integer )
        {
            ENSURES( o.lo[ i ] <= c.array[ i ] ); ENSURES( c.array[ i ] <= o.hi[ i ] );
            const T below = c.array[ i ] - o.lo[ i ], above = o.hi[ i ] - c.array[ i ];
            ENSURES( below == above || below + T( 1 ) == above || above + T( 1 ) == below );
        }
        else ENSURES_EQ( c.array[ i ] - o.lo[ i ], o.hi[ i ] - c.array[ i ] );
    }
    SAME_BOX( b, o );
}
template< class T > void equality()
{
    Box< T > a, b; sym_corners( a ); sym_corners( b ); const Corners< T > oa( a ), ob( b ); const AABB< T > &ca = a, &cb = b;
    bool e = true; for( size_t i = 0; i < 3; ++i ) e = e && oa.lo[ i ] == ob.lo[ i ] && oa.hi[ i ] == ob.hi[ i ];
    ENSURES( ( ca == cb ) == e ); ENSURES( ( ca != cb ) == !e ); ENSURES( ca == ca ); ENSURES( !( ca != ca ) );
    SAME_BOX( a, oa ); SAME_BOX( b, ob );
    if( e ) vc_cover( "equal" ); else vc_cover( "different" );
}
#define ARITH( name, op, cond ) template< class T > void name() \
{ \
    Box< T > b; sym_corners< true >( b ); const Corners< T > o( b ); const T v = vc::tame< T >(); REQUIRES( cond ); const AABB< T >& cb = b; \
    const AABB< T > r = cb op v; SAME_BOX( b, o ); BOX_IS( r, o.lo[ i ] op v, o.hi[ i ] op v ); \
    b op##= v; BOX_IS( b, o.lo[ i ] op v, o.hi[ i ] op v ); \
}
ARITH( scale, *, true ) ARITH( divide, /, v != T( 0 ) ) ARITH( shift, +, true ) ARITH( unshift, -, true )

// combined with one of its own corner components
template< class T > void own_component()
{
    Box< T > b; sym_corners< true >( b ); const Corners< T > o( b );
    for( size_t k = 0; k < 3; ++k )
    {
        Box< T > c( b ); c *= c.lo()[ k ]; BOX_IS( c, o.lo[ i ] * o.lo[ k ], o.hi[ i ] * o.lo[ k ] );
        c = b; c += c.lo()[ k ]; BOX_IS( c, o.lo[ i ] + o.lo[ k ], o.hi[ i ] + o.lo[ k ] );
        c = b; c -= c.hi()[ k ]; BOX_IS( c, o.lo[ i ] - o.hi[ k ], o.hi[ i ] - o.hi[ k ] );
        if( o.lo[ k ] != T( 0 ) ) { c = b; c /= c.lo()[ k ]; BOX_IS( c, o.lo[ i ] / o.lo[ k ], o.hi[ i ] / o.lo[ k ] ); }
    }
    SAME_BOX( b, o );
}
// a box that was asked before it is changed answers for its new corners
template< class T, bool I > struct Few { static T get() { return T( vc_int( 1, 1000 ) ); } };
template< class T > struct Few< T, false > { static T get() { return finite< T >(); } };
template< class T > Vector< 3, T > few() { Vector< 3, T > v; for( auto& x : v.array ) x = Few< T, std::numeric_limits< T >::is_integer >::get(); return v; }
template< class T > void ask( AABB< T >& b )
{
    b.getCenter(); b.getDimension(); b.isEmpty(); b.getMin(); b.getMax(); AABB< T > c( b ); (void)( c == b );
    const Vector< 3, T > p( T( 1 ) ); b.isIn( p ); b.isIn2d( p ); b.isIn( Vector< 4, T >( T( 1 ) ) );
}
template< class T > void answers( AABB< T >& b, const T* lo, const T* hi, const Vector< 3, T >& p )
{
    const AABB< T >& cb = b; const Vector< 3, T > c = cb.getCenter(), d = cb.getDimension(); bool e = false, in = true;
    for( size_t i = 0; i < 3; ++i )
    {
        ENSURES_EQ( cb.getMin().array[ i ], lo[ i ] ); ENSURES_EQ( cb.getMax().array[ i ], hi[ i ] );
        ENSURES_EQ( d.array[ i ], T( hi[ i ] - lo[ i ] ) ); 
        if( std::numeric_limits< T >::is_integer ) { const T u = c.array[ i ] - lo[ i ], v = hi[ i ] - c.array[ i ]; ENSURES( u == v || u + T( 1 ) == v || v + T( 1 ) == u ); }
        else ENSURES_EQ( c.array[ i ] - lo[ i ], hi[ i ] - c.array[ i ] );
        e = e || lo[ i ] >= hi[ i ]; in = in && lo[ i ] <= p.array[ i ] && p.array[ i ] <= hi[ i ];
    }
    ENSURES( b.isEmpty() == e ); ENSURES( b.isIn( p ) == in );
}
template< class T, int HOW > void asked_before()
{
    Vector< 3, T > l = few< T >(), h = few< T >(), p = few< T >(), q = few< T >(), r = few< T >(); const T k = q.array[ 0 ];
    if( std::numeric_limits< T >::is_integer ) for( size_t i = 0; i < 3; ++i ) { REQUIRES( l.array[ i ] <= h.array[ i ] ); if( HOW < 3 ) REQUIRES( h.array[ i ] <= q.array[ i ] ); }
    if( HOW == 1 && std::numeric_limits< T >::is_integer ) for( size_t i = 0; i < 3; ++i ) REQUIRES( q.array[ i ] == h.array[ i ] );
    if( HOW == 3 && std::numeric_limits< T >::is_integer ) for( size_t i = 0; i < 3; ++i ) REQUIRES( q.array[ i ] <= r.array[ i ] );
    T lo[ 3 ], hi[ 3 ]; for( size_t i = 0; i < 3; ++i ) { lo[ i ] = l.array[ i ]; hi[ i ] = h.array[ i ]; }
    AABB< T > b( l, h ); ask( b );
    switch( HOW )
    {
    case 0: b.setMax( q ); for( size_t i = 0; i < 3; ++i ) hi[ i ] = q.array[ i ]; break;
    case 1: b.setMin( q ); for( size_t i = 0; i < 3; ++i ) lo[ i ] = q.array[ i ]; break;
    case 2: b.getMax() = q; for( size_t i = 0; i < 3; ++i ) hi[ i ] = q.array[ i ]; break;
    case 3: b.set( q, r ); for( size_t i = 0; i < 3; ++i ) { lo[ i ] = q.array[ i ]; hi[ i ] = r.array[ i ]; } break;
    case 4: b.merge( q ); for( size_t i = 0; i < 3; ++i ) { lo[ i ] = mn( lo[ i ], q.array[ i ] ); hi[ i ] = mx( hi[ i ], q.array[ i ] ); } break;
    case 5: { AABB< T > o( q, q ); ask( o ); b.merge( o ); for( size_t i = 0; i < 3; ++i ) { lo[ i ] = mn( lo[ i ], q.array[ i ] ); hi[ i ] = mx( hi[ i ], q.array[ i ] ); } break; }
    case 6: b += k; for( size_t i = 0; i < 3; ++i ) { lo[ i ] = T( lo[ i ] + k ); hi[ i ] = T( hi[ i ] + k ); } break;
    case 7: b *= k; for( size_t i = 0; i < 3; ++i ) { lo[ i ] = T( lo[ i ] * k ); hi[ i ] = T( hi[ i ] * k ); } break;
    case 8: { AABB< T > o( q, q ); ask( o ); o = b; b = o; b.setEmpty(); ask( b ); b.merge( q ); for( size_t i = 0; i < 3; ++i ) lo[ i ] = hi[ i ] = q.array[ i ]; break; }
    case 9: { AABB< T > o( q, q ); ask( o ); b = o; for( size_t i = 0; i < 3; ++i ) lo[ i ] = hi[ i ] = q.array[ i ]; break; }
    }
    answers( b, lo, hi, p );
}
#define ASKED( h ) PROVE( asked##h##_f, asked_before< float, h > ) PROVE( asked##h##_d, asked_before< double, h > ) PROVE( asked##h##_i, asked_before< int, h > )
ASKED( 0 ) ASKED( 1 ) ASKED( 2 ) ASKED( 3 ) ASKED( 4 ) ASKED( 5 ) ASKED( 6 ) ASKED( 7 ) ASKED( 8 ) ASKED( 9 )
#define INST( n, f ) PROVE( n##_f, f< float > ) PROVE( n##_d, f< double > ) PROVE( n##_i, f< int > ) PROVE( n##_u, f< unsigned > ) PROVE( n##_s, f< int16_t > )
#define INSTE( n, f, h ) PROVE( n##_f, f< float, h > ) PROVE( n##_d, f< double, h > ) PROVE( n##_i, f< int, h > ) PROVE( n##_u, f< unsigned, h > ) PROVE( n##_l, f< int64_t, h > )
INST( merge_point, merge_point ) INST( merge_box, merge_box ) INST( merge_own, merge_own ) INSTE( default_empty, from_empty, 0 ) INSTE( set_empty, from_empty, 1 )
INST( containment, containment ) INST( sphere, sphere ) INST( construct, construct ) INST( construct_centre, construct_centre ) INST( queries, queries ) INST( equality, equality )
PROVE( own_component_f, own_component< float > ) PROVE( own_component_d, own_component< double > ) PROVE( own_component_s, own_component< int16_t > ) INST( scale, scale ) INST( divide, divide ) INST( shift, shift ) INST( unshift, unshift )
PROVE( sphere_points_f, sphere_points< float > ) PROVE( sphere_points_d, sphere_points< double > )

// a merged box may be larger than each of the two
static void canary() { typedef double T; Box< T > a, b; sym_box( a ); sym_box( b ); const Corners< T > o( a ); a.merge( b ); SAME_BOX( a, o ); }
REFUTE( merge_ignored, canary )
// containment is inclusive
static void canary2() { Box< int > b; sym_corners( b ); const Corners< int > o( b ); Vector< 3, int > p; sym_point( p ); bool s = true; for( size_t i = 0; i < 3; ++i ) s = s && o.lo[ i ] < p.array[ i ] && p.array[ i ] < o.hi[ i ]; ENSURES( b.isIn( p ) == s ); }
REFUTE( open_box, canary2 )

// C06: vector comparison, search and clamping agree with their definitions
#include "vc.h"
#include <vmmlib/vector.hpp>
#include <vmmlib/matrix.hpp>
#include <vmmlib/math.hpp>
#include <vmmlib/util.hpp>
using namespace vmml;

template< class T > inline T absd( T a, T b ) { return a < b ? T( b - a ) : T( a - b ); }

template< size_t M, class T > void equality()
{
    Vector< M, T > a, b; vc::sym( a ); vc::sym( b ); auto oa = vc::save( a ), ob = vc::save( b ); const Vector< M, T > &ca = a, &cb = b;
    bool same = true; for( size_t i = 0; i < M; ++i ) same = same && oa[ i ] == ob[ i ];
    ENSURES( ( ca == cb ) == same ); ENSURES( ( ca != cb ) == !same ); ENSURES( ( cb == ca ) == same ); ENSURES( ( cb != ca ) == !same );
    ENSURES( ca == ca ); ENSURES( !( ca != ca ) );
    UNCHANGED( a, oa ); UNCHANGED( b, ob );
    if( same ) vc_cover( "equal" ); else vc_cover( "different" );
}
// one differing component suffices, wherever it is
template< size_t M, class T > void one_difference()
{
    Vector< M, T > a; vc::sym( a ); Vector< M, T > b( a ); const size_t k = vc_size( 0, M - 1 ); const T v = vc::any< T >();
    ENSURES( a == b );
    REQUIRES( v != a.array[ k ] );
    b.array[ k ] = v;
    ENSURES( a != b ); ENSURES( !( a == b ) );
}
template< size_t M, class T > void tolerant()
{
    Vector< M, T > a, b; vc::sym_tame( a ); vc::sym_tame( b ); auto oa = vc::save( a ), ob = vc::save( b ); const Vector< M, T > &ca = a, &cb = b; const T tol = vc::any< T >();
    bool close = true; for( size_t i = 0; i < M; ++i ) close = close && absd( oa[ i ], ob[ i ] ) < tol;
    ENSURES( ca.equals( cb, tol ) == close ); ENSURES( cb.equals( ca, tol ) == close );
    ENSURES( ca.equals( ca, tol ) == ( tol > T( 0 ) ) );
    UNCHANGED( a, oa ); UNCHANGED( b, ob );
    if( close ) vc_cover( "close" ); else vc_cover( "apart" );
}
template< size_t M, class T > void default_tolerant()
{
    Vector< M, T > a, b; vc::sym( a ); vc::sym( b ); auto oa = vc::save( a ), ob = vc::save( b ); const Vector< M, T > &ca = a, &cb = b;
    bool close = true; for( size_t i = 0; i < M; ++i ) close = close && absd( oa[ i ], ob[ i ] ) < std::numeric_limits< T >::epsilon();
    ENSURES( ca.equals( cb ) == close );
    ENSURES( ( vmml::equals< M, T >( a, b ) ) == close );
    UNCHANGED( a, oa ); UNCHANGED( b, ob );
}
template< size_t M, class T > void ordering()
{
    Vector< M, T > a, b; vc::sym( a ); vc::sym( b ); auto oa = vc::save( a ), ob = vc::save( b ); const Vector< M, T > &ca = a, &cb = b;
    bool less = false, tie = true;
    for( size_t i = 0; i < M; ++i ) { less = less || ( tie && oa[ i ] < ob[ i ] ); tie = tie && oa[ i ] == ob[ i ]; }
    ENSURES( ( ca < cb ) == less ); ENSURES( ( cb < ca ) == ( !less && !tie ) ); ENSURES( !( ca < ca ) );
    UNCHANGED( a, oa ); UNCHANGED( b, ob );
    if( less ) vc_cover( "less" ); else if( tie ) vc_cover( "equal" ); else vc_cover( "greater" );
}
// a strict weak order whose incomparability is equality
template< size_t M, class T > void strict_weak()
{
    Vector< M, T > a, b, c; vc::sym( a ); vc::sym( b ); vc::sym( c ); const Vector< M, T > &x = a, &y = b, &z = c;
    const bool xy = x < y, yx = y < x, yz = y < z, zy = z < y, xz = x < z;
    ENSURES( !( xy && yx ) ); ENSURES( !( xy && yz ) || xz );
    ENSURES( ( !xy && !yx ) == ( x == y ) );
    ENSURES( !( xy && !yz && !zy ) || xz );
}
template< size_t M, class T > void extremes()
{
    Vector< M, T > a; vc::sym( a ); auto o = vc::save( a ); const Vector< M, T >& ca = a;
    const size_t lo = ca.find_min_index(), hi = ca.find_max_index();
    ENSURES( lo < M ); ENSURES( hi < M );
    const T vl = ca.find_min(), vh = ca.find_max(); T &rl = a.find_min(), &rh = a.find_max();
    const T kl = rl, kh = rh;
    bool al = false, ah = false;
    for( size_t i = 0; i < M; ++i )
    {
        ENSURES( o[ lo ] <= o[ i ] ); ENSURES( o[ i ] <= o[ hi ] );
        ENSURES( vl <= o[ i ] ); ENSURES( o[ i ] <= vh );
        al = al || o[ i ] == vl; ah = ah || o[ i ] == vh;
    }
    ENSURES( al ); ENSURES( ah );
    ENSURES( kl == vl ); ENSURES( kh == vh );
    UNCHANGED( a, o );
    // the references name components
    bool nl = false, nh = false; for( size_t i = 0; i < M; ++i ) { nl = nl || &rl == a.array + i; nh = nh || &rh == a.array + i; }
    ENSURES( nl ); ENSURES( nh );
}
template< size_t M, class T > void abs_extremes()
{
    Vector< M, T > a; vc::sym_tame( a ); auto o = vc::save( a ); const Vector< M, T >& ca = a;
    const size_t lo = ca.find_abs_min_index(), hi = ca.find_abs_max_index();
    ENSURES( lo < M ); ENSURES( hi < M );
    for( size_t i = 0; i < M; ++i ) { ENSURES( std::abs( o[ lo ] ) <= std::abs( o[ i ] ) ); ENSURES( std::abs( o[ i ] ) <= std::abs( o[ hi ] ) ); }
    UNCHANGED( a, o );
}
template< size_t M, class T > void clamped()
{
    Vector< M, T > a; vc::sym( a ); auto o = vc::save( a ); const T lo = vc::any< T >(), hi = vc::any< T >(); REQUIRES( lo <= hi );
    T l = lo, h = hi; a.clamp( l, h );
    for( size_t i = 0; i < M; ++i ) ENSURES( a.array[ i ] == ( o[ i ] < lo ? lo : o[ i ] > hi ? hi : o[ i ] ) );
    ENSURES( l == lo ); ENSURES( h == hi );
}
template< size_t M, class T > void clamped_default()
{
    Vector< M, T > a; vc::sym( a ); auto o = vc::save( a );
    a.clamp();
    for( size_t i = 0; i < M; ++i ) ENSURES( a.array[ i ] == ( o[ i ] < T( 0 ) ? T( 0 ) : o[ i ] > T( 1 ) ? T( 1 ) : o[ i ] ) );
}
// bounds that are components of the vector itself
template< size_t M, class T > void clamped_alias()
{
    Vector< M, T > a; vc::sym( a ); auto o = vc::save( a ); const size_t i = vc_size( 0, M - 1 ), j = vc_size( 0, M - 1 );
    REQUIRES( o[ i ] <= o[ j ] );
    a.clamp( a.array[ i ], a.array[ j ] );
    for( size_t k = 0; k < M; ++k ) ENSURES( a.array[ k ] == ( o[ k ] < o[ i ] ? o[ i ] : o[ k ] > o[ j ] ? o[ j ] : o[ k ] ) );
}
template< size_t M, class T > void counting()
{
    Vector< M, T > a; vc::sym( a ); auto o = vc::save( a ); const Vector< M, T >& ca = a;
    size_t n = 0, ones = 0; bool other = false;
    for( size_t i = 0; i < M; ++i ) { if( o[ i ] != T( 0 ) ) ++n; if( o[ i ] == T( 1 ) ) ++ones; else if( o[ i ] != T( 0 ) ) other = true; }
    ENSURES( ca.nnz() == n );
    ENSURES( ca.is_unit_vector() == ( ones == 1 && !other ) );
    UNCHANGED( a, o );
}
template< size_t M, class T > void safe_reciprocal()
{
    Vector< M, T > a; vc::sym( a ); auto o = vc::save( a );
    a.reciprocal_safe();
    for( size_t i = 0; i < M; ++i )
        if( o[ i ] == T( 0 ) ) ENSURES( a.array[ i ] == std::numeric_limits< T >::max() ); else ENSURES_EQ( a.array[ i ] * o[ i ], T( 1 ) );
}
// code = floor of the exact linear map of [lo,hi] onto [0,max code]
template< size_t M, class T, class TT > void scaled()
{
    Vector< M, T > a; vc::sym( a ); const T lo = vc::any< T >(), hi = vc::any< T >(); REQUIRES( lo < hi );
    for( size_t i = 0; i < M; ++i ) { REQUIRES( a.array[ i ] >= lo ); REQUIRES( a.array[ i ] <= hi ); }
    auto o = vc::save( a ); const Vector< M, T >& ca = a; Vector< M, TT > r; vc::sym( r );
    ca.scale_to( r, lo, hi );
    const T top = T( std::numeric_limits< TT >::max() );
    for( size_t i = 0; i < M; ++i )
    {
        const T c = T( r.array[ i ] ), y = ( o[ i ] - lo ) * top;   // c <= y/range < c+1
        ENSURES( c * ( hi - lo ) <= y || vc::eq( c * ( hi - lo ), y ) ); ENSURES( y < ( c + 1 ) * ( hi - lo ) );
        ENSURES( r.array[ i ] >= TT( 0 ) );
    }
    UNCHANGED( a, o );
}
template< size_t M, class T > void helpers()
{
    Vector< M, T > a, b, z; vc::sym( a ); vc::sym( b ); vc::sym( z ); auto oa = vc::save( a ), ob = vc::save( b ); const Vector< M, T > &ca = a, &cb = b;
    const Vector< M, T > lo = vmml::min( ca, cb ), hi = vmml::max( ca, cb );
    for( size_t i = 0; i < M; ++i ) { ENSURES( lo.array[ i ] == ( oa[ i ] < ob[ i ] ? oa[ i ] : ob[ i ] ) ); ENSURES( hi.array[ i ] == ( oa[ i ] < ob[ i ] ? ob[ i ] : oa[ i ] ) ); }
    vmml::zero( z );
    for( size_t i = 0; i < M; ++i ) ENSURES( z.array[ i ] == T( 0 ) );
    UNCHANGED( a, oa ); UNCHANGED( b, ob );
}
template< size_t M, class T > void manhattan_norm()
{
    Vector< M, T > a; vc::sym_tame( a ); auto o = vc::save( a );
    T s = 0; for( size_t i = 0; i < M; ++i ) s = T( s + ( o[ i ] < T( 0 ) ? T( -o[ i ] ) : o[ i ] ) );
    ENSURES_EQ( ( vmml::manhattan< M, T >( a ) ), s );
    UNCHANGED( a, o );
}
template< class T > void scalars()
{
    const T a = vc::any< T >(), b = vc::any< T >();
    ENSURES_EQ( vmml::math::squared( a ), a * a );
    const T p = vmml::math::pythag( a, b ); ENSURES( p >= T( 0 ) ); ENSURES_EQ( p * p, a * a + b * b );
    const T m = a < T( 0 ) ? -a : a, n = b < T( 0 ) ? -b : b;
    ENSURES_EQ( vmml::math::sign( a, b ), b >= T( 0 ) ? m : -m );
    vmml::math::abs_less< T > l; vmml::math::abs_greater< T > g;
    ENSURES( ( l( a, b ) != T( 0 ) ) == ( m < n ) ); ENSURES( ( g( a, b ) != T( 0 ) ) == ( m > n ) );
    ENSURES( ( vmml::equals< T, T >( a, b ) ) == ( absd( a, b ) < T( std::numeric_limits< float >::epsilon() ) ) );
}
#define V( M ) PROVE_ALL( equality##M, equality, M ) PROVE_ALL( one_difference##M, one_difference, M ) PROVE_ALL( tolerant##M, tolerant, M ) \
    PROVE_FD( default_tolerant##M, default_tolerant, M ) PROVE_ALL( less##M, ordering, M ) PROVE_ALL( strict_weak##M, strict_weak, M ) \
    PROVE_ALL( extremes##M, extremes, M ) PROVE_FD( abs_extremes##M, abs_extremes, M ) PROVE( abs_extremes##M##_i, abs_extremes< M, int > ) \
    PROVE_ALL( clamp##M, clamped, M ) PROVE_ALL( clamp_default##M, clamped_default, M ) PROVE_ALL( clamp_alias##M, clamped_alias, M ) \
    PROVE_ALL( count##M, counting, M ) PROVE_FD( safe_reciprocal##M, safe_reciprocal, M ) PROVE_ALL( helpers##M, helpers, M ) \
    PROVE_FD( manhattan##M, manhattan_norm, M ) PROVE( manhattan##M##_i, manhattan_norm< M, int > )
V( 1 ) V( 2 ) V( 3 ) V( 4 ) V( 5 ) V( 7 ) V( 8 ) V( 9 )
PROVE_ALL( equality16, equality, 16 ) PROVE_ALL( one_difference16, one_difference, 16 ) PROVE_FD( less16, ordering, 16 ) PROVE_FD( tolerant16, tolerant, 16 ) PROVE_ALL( clamp16, clamped, 16 ) PROVE_ALL( count16, counting, 16 )
#define S( M, c, TT ) PROVE( scale_to##M##c##_f, scaled< M, float, TT > ) PROVE( scale_to##M##c##_d, scaled< M, double, TT > )
S( 1, b, uint8_t ) S( 3, b, uint8_t ) S( 4, w, uint16_t ) S( 2, s, int16_t )
PROVE( math_f, scalars< float > ) PROVE( math_d, scalars< double > )

static void canary() { Vector< 3, int > a; vc::sym( a ); const size_t k = a.find_max_index(); ENSURES( a.array[ k ] > a.array[ 0 ] || k == 1 ); }
REFUTE( max_strict, canary )
static void canary2() { Vector< 3, double > a, b; vc::sym( a ); vc::sym( b ); ENSURES( a < b || b < a ); }
REFUTE( order_total, canary2 )

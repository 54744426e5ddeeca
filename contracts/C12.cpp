// C12: 4x4 affine transformations compose as documented on every matrix
// VC-CONFIG-QUICK: release=-DNDEBUG
#include "vc.h"
#include <vmmlib/vector.hpp>
#include <vmmlib/matrix.hpp>
#include <vmmlib/util.hpp>
using namespace vmml;
#define E( a, r, c ) ( a )[ ( r ) + 4 * ( c ) ]
#define EACH for( size_t r = 0; r < 4; ++r ) for( size_t c = 0; c < 4; ++c )
template< class T > struct M4 { T a[ 16 ]; T& operator[]( size_t i ) { return a[ i ]; } const T& operator[]( size_t i ) const { return a[ i ]; } };
template< class T > M4< T > unit() { M4< T > m; EACH E( m, r, c ) = T( r == c ); return m; }
// elementary rotation about a coordinate axis, right-handed
template< class T > M4< T > axis_rotation( int axis, T s, T c )
{
    M4< T > m = unit< T >(); const size_t i = ( axis + 1 ) % 3, j = ( axis + 2 ) % 3;
    E( m, i, i ) = c; E( m, j, j ) = c; E( m, j, i ) = s; E( m, i, j ) = -s;
    return m;
}
// Rodrigues' formula
template< class T > M4< T > rodrigues( const T* k, T s, T co )
{
    M4< T > m = unit< T >();
    const T x[ 3 ][ 3 ] = { { 0, -k[ 2 ], k[ 1 ] }, { k[ 2 ], 0, -k[ 0 ] }, { -k[ 1 ], k[ 0 ], 0 } };
    for( size_t r = 0; r < 3; ++r ) for( size_t c = 0; c < 3; ++c ) E( m, r, c ) = T( r == c ) * co + ( 1 - co ) * k[ r ] * k[ c ] + s * x[ r ][ c ];
    return m;
}
template< class T, class A, class B > M4< T > product( const A& a, const B& b )
{
    M4< T > m; EACH { T s = 0; for( size_t k = 0; k < 4; ++k ) s += E( a, r, k ) * E( b, k, c ); E( m, r, c ) = s; }
    return m;
}
#define IS( m, o ) { const auto e_ = ( o ); for( size_t i = 0; i < 16; ++i ) ENSURES_EQ( ( m ).array[ i ], e_[ i ] ); }

template< class T, class TT > void axis_rotations()
{
    Matrix< 4, 4, T > a; vc::sym( a ); const auto o = vc::save( a ); const TT t = vc::any< TT >();
    const T s = std::sin( T( t ) ), c = std::cos( T( t ) );
#define ROT( f, axis ) { Matrix< 4, 4, T > m( a ); ENSURES( &m.f( t ) == &m ); IS( m, product< T >( o, axis_rotation< T >( axis, s, c ) ) ) }
#define PRE( f, axis ) { Matrix< 4, 4, T > m( a ); ENSURES( &m.f( t ) == &m ); IS( m, product< T >( axis_rotation< T >( axis, -s, c ), o ) ) }
    ROT( rotate_x, 0 ) ROT( rotate_y, 1 ) ROT( rotate_z, 2 )
    PRE( pre_rotate_x, 0 ) PRE( pre_rotate_y, 1 ) PRE( pre_rotate_z, 2 )
    UNCHANGED( a, o );
}
template< class T, class TT > void any_axis()
{
    Matrix< 4, 4, T > a; vc::sym( a ); Vector< 3, T > k; vc::sym_unit( k.array, 3 ); const auto ok = vc::save( k ); const TT t = vc::any< TT >();
    ENSURES( &a.rotate( t, k ) == &a );
    IS( a, rodrigues< T >( ok.v, std::sin( T( t ) ), std::cos( T( t ) ) ) )
    UNCHANGED( k, ok );
}
template< class T, class TT > void scales()
{
    Matrix< 4, 4, T > a; vc::sym( a ); const auto o = vc::save( a ); TT f[ 3 ]; vc::sym( f ); const auto of = vc::save( f );
    M4< T > s = unit< T >(), t = unit< T >(); for( size_t i = 0; i < 3; ++i ) E( s, i, i ) = T( of[ i ] );
    Vector< 3, TT > v; for( size_t i = 0; i < 3; ++i ) v.array[ i ] = of[ i ];
    { Matrix< 4, 4, T > m( a ); ENSURES( &m.scale( ( const TT* )f ) == &m ); IS( m, product< T >( o, s ) ) }
    { Matrix< 4, 4, T > m( a ); ENSURES( &m.scale( v ) == &m ); IS( m, product< T >( o, s ) ) }
    { Matrix< 4, 4, T > m( a ); ENSURES( &m.scale( of[ 0 ], T( of[ 1 ] ), T( of[ 2 ] ) ) == &m ); IS( m, product< T >( o, s ) ) }
    M4< T > e; for( size_t i = 0; i < 16; ++i ) e[ i ] = i < 12 || i == 15 ? o[ i ] : T( o[ i ] * T( of[ i - 12 ] ) );
    { Matrix< 4, 4, T > m( a ); ENSURES( &m.scale_translation( ( const TT* )f ) == &m ); IS( m, e ) }
    { Matrix< 4, 4, T > m( a ); ENSURES( &m.scale_translation( v ) == &m ); IS( m, e ) }
    UNCHANGED( a, o ); UNCHANGED( v, of );
}
template< class T, class TT > void translations()
{
    Matrix< 4, 4, T > a; vc::sym( a ); const auto o = vc::save( a ); TT f[ 3 ]; vc::sym( f ); const auto of = vc::save( f );
    Vector< 3, TT > v; for( size_t i = 0; i < 3; ++i ) v.array[ i ] = of[ i ];
    M4< T > e; for( size_t i = 0; i < 16; ++i ) e[ i ] = i < 12 || i == 15 ? o[ i ] : T( of[ i - 12 ] );
    { Matrix< 4, 4, T > m( a ); ENSURES( &m.set_translation( ( const TT* )f ) == &m ); IS( m, e ) }
    { Matrix< 4, 4, T > m( a ); ENSURES( &m.set_translation( v ) == &m ); IS( m, e ) }
    { Matrix< 4, 4, T > m( a ); ENSURES( &m.set_translation( of[ 0 ], of[ 1 ], of[ 2 ] ) == &m ); IS( m, e ) }
    const Matrix< 4, 4, T >& ca = a;
    const Vector< 3, T > g = ca.get_translation(); Vector< 3, TT > h; vc::sym( h ); ca.get_translation( h );
    for( size_t i = 0; i < 3; ++i ) { ENSURES_EQ( g.array[ i ], o[ 12 + i ] ); ENSURES_EQ( h.array[ i ], TT( o[ 12 + i ] ) ); }
    UNCHANGED( a, o ); UNCHANGED( v, of );
}
template< class T > void helpers()
{
    Matrix< 4, 4, T > a; vc::sym( a ); const auto o = vc::save( a ); Vector< 3, T > v, k; vc::sym( v ); vc::sym_unit( k.array, 3 ); const auto ov = vc::save( v ), ok = vc::save( k );
    const T t = vc::any< T >(), f = vc::any< T >();
    M4< T > tr = unit< T >(), sc = unit< T >(), un = unit< T >();
    for( size_t i = 0; i < 3; ++i ) { E( tr, i, 3 ) = ov[ i ]; E( sc, i, i ) = ov[ i ]; E( un, i, i ) = f; }
    const M4< T > ro = rodrigues< T >( ok.v, std::sin( t ), std::cos( t ) );
    IS( vmml::create_translation( v ), tr ) IS( ( vmml::create_translation< 4, 4, T >( v ) ), tr )
    IS( vmml::create_scaling( v ), sc ) IS( ( vmml::create_scaling< 4, 4, T >( v ) ), sc ) IS( vmml::create_scaling( f ), un )
    IS( vmml::create_rotation( t, k ), ro ) IS( ( vmml::create_rotation< 4, 4, T >( t, k ) ), ro )
    { Matrix< 4, 4, T > m( a ); vmml::apply_translation( m, ov[ 0 ], ov[ 1 ], ov[ 2 ] ); IS( m, product< T >( o, tr ) ) }
    { Matrix< 4, 4, T > m( a ); vmml::apply_rotation( m, t, ok[ 0 ], ok[ 1 ], ok[ 2 ] ); IS( m, product< T >( o, ro ) ) }
    UNCHANGED( a, o ); UNCHANGED( v, ov ); UNCHANGED( k, ok );
}
// what the matrices do to points
template< class T > void points()
{
    Vector< 3, T > v, p; vc::sym( v ); vc::sym( p ); const T t = vc::any< T >();
    const Matrix< 4, 4, T > tr = vmml::create_translation( v ), sc = vmml::create_scaling( v );
    const Vector< 3, T > x = tr * p, y = sc * p;
    for( size_t i = 0; i < 3; ++i ) { ENSURES_EQ( x.array[ i ], p.array[ i ] + v.array[ i ] ); ENSURES_EQ( y.array[ i ], p.array[ i ] * v.array[ i ] ); }
    Matrix< 4, 4, T > m; m.rotate_z( t ); m.set_translation( v );
    const Vector< 3, T > z = m * p; const T s = std::sin( t ), c = std::cos( t );
    ENSURES_EQ( z.array[ 0 ], c * p.array[ 0 ] - s * p.array[ 1 ] + v.array[ 0 ] ); ENSURES_EQ( z.array[ 1 ], s * p.array[ 0 ] + c * p.array[ 1 ] + v.array[ 1 ] ); ENSURES_EQ( z.array[ 2 ], p.array[ 2 ] + v.array[ 2 ] );
}
// any other size: the translation is the last column without its last element
template< size_t M, size_t N, class T > void other_translations()
{
    Matrix< M, N, T > a; vc::sym( a ); const auto o = vc::save( a ); const Matrix< M, N, T >& ca = a;
    const Vector< N - 1, T > g = ca.get_translation(); Vector< N - 1, T > h; vc::sym( h ); ca.get_translation( h );
    for( size_t i = 0; i + 1 < N; ++i ) { ENSURES_EQ( g.array[ i ], o[ i + M * ( N - 1 ) ] ); ENSURES_EQ( h.array[ i ], o[ i + M * ( N - 1 ) ] ); }
    UNCHANGED( a, o );
}
#define FD( n, f ) PROVE( n##_ff, f< float, float > ) PROVE( n##_dd, f< double, double > ) PROVE( n##_fd, f< float, double > ) PROVE( n##_df, f< double, float > )
FD( axis_rotations, axis_rotations ) FD( any_axis, any_axis ) FD( scale, scales ) FD( translation, translations )
PROVE( helpers_f, helpers< float > ) PROVE( helpers_d, helpers< double > ) PROVE( points_f, points< float > ) PROVE( points_d, points< double > )
#define GT( M, N ) PROVE_ALL( get_translation##M##N, other_translations, M, N )
GT( 2, 2 ) GT( 3, 3 ) GT( 5, 5 ) GT( 3, 4 ) GT( 2, 3 ) GT( 4, 3 ) GT( 4, 2 )
PROVE( scale_ii, scales< int, int > ) PROVE( translation_ii, translations< int, int > )

static void canary() { typedef double T; Matrix< 4, 4, T > a; vc::sym( a ); const auto o = vc::save( a ); const T t = vc::any< T >(); a.rotate_x( t ); IS( a, product< T >( axis_rotation< T >( 0, std::sin( t ), std::cos( t ) ), o ) ) }
REFUTE( rotation_from_left, canary )
static void canary2() { typedef float T; Matrix< 4, 4, T > a; vc::sym( a ); Vector< 3, T > v; vc::sym( v ); const auto o = vc::save( a ); a.scale( v ); ENSURES_EQ( a.array[ 3 ], o[ 3 ] ); }
REFUTE( scale_upper_only, canary2 )

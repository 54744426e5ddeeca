// C17: quaternion and rotation matrix describe the same rotation, both ways
// VC-CONFIG-QUICK: release=-DNDEBUG
#include "vc.h"
#include <vmmlib/vector.hpp>
#include <vmmlib/matrix.hpp>
#include <vmmlib/quaternion.hpp>
using namespace vmml;
#define E( a, R, r, c ) ( a )[ ( r ) + ( R ) * ( c ) ]

template< size_t D, class T > void check_rotation( const Matrix< D, D, T >& m )
{
    for( size_t i = 0; i < 3; ++i ) for( size_t j = 0; j < 3; ++j )
    {
        T a = 0, b = 0; for( size_t k = 0; k < 3; ++k ) { a += E( m.array, D, k, i ) * E( m.array, D, k, j ); b += E( m.array, D, i, k ) * E( m.array, D, j, k ); }
        ENSURES_EQ( a, T( i == j ) ); ENSURES_EQ( b, T( i == j ) );
    }
    T d = 0; for( size_t i = 0; i < 3; ++i ) d += E( m.array, D, 0, i ) * ( E( m.array, D, 1, ( i + 1 ) % 3 ) * E( m.array, D, 2, ( i + 2 ) % 3 ) - E( m.array, D, 1, ( i + 2 ) % 3 ) * E( m.array, D, 2, ( i + 1 ) % 3 ) );
    ENSURES_EQ( d, T( 1 ) );
}
// Hamilton product of (x,y,z,w) tuples
template< class T, class A, class B > vc::arr< 4, T > mul( const A& a, const B& b )
{
    vc::arr< 4, T > r;
    for( size_t i = 0; i < 3; ++i ) { const size_t j = ( i + 1 ) % 3, k = ( i + 2 ) % 3; r.v[ i ] = a[ 3 ] * b[ i ] + a[ i ] * b[ 3 ] + a[ j ] * b[ k ] - a[ k ] * b[ j ]; }
    r.v[ 3 ] = a[ 3 ] * b[ 3 ] - a[ 0 ] * b[ 0 ] - a[ 1 ] * b[ 1 ] - a[ 2 ] * b[ 2 ];
    return r;
}
template< class T > void to_matrix()
{
    Quaternion< T > q; vc::sym_unit( q.array, 4 ); auto o = vc::save( q ); const Quaternion< T >& cq = q;
    const Matrix< 3, 3, T > m = cq.get_rotation_matrix();
    UNCHANGED( q, o );
    check_rotation( m );
    // conjugation q v q*
    T v[ 4 ] = { vc::any< T >(), vc::any< T >(), vc::any< T >(), 0 }; const T j[ 4 ] = { -o[ 0 ], -o[ 1 ], -o[ 2 ], o[ 3 ] };
    const vc::arr< 4, T > qv = mul< T >( o, v ), r = mul< T >( qv, j );
    const Vector< 3, T > w = m * Vector< 3, T >( v[ 0 ], v[ 1 ], v[ 2 ] );
    for( size_t i = 0; i < 3; ++i )
    {
        ENSURES_EQ( E( m.array, 3, i, 0 ) * v[ 0 ] + E( m.array, 3, i, 1 ) * v[ 1 ] + E( m.array, 3, i, 2 ) * v[ 2 ], r[ i ] );
        ENSURES_EQ( w.array[ i ], r[ i ] );
    }
    ENSURES_EQ( r[ 3 ], T( 0 ) );
}
// a larger target gets the same block and keeps its other elements
template< size_t D, class T > void into()
{
    Quaternion< T > q; vc::sym( q ); auto o = vc::save( q ); const Quaternion< T >& cq = q; Matrix< D, D, T > m; vc::sym( m ); auto om = vc::save( m );
    cq.get_rotation_matrix( m ); const Matrix< 3, 3, T > s = cq.get_rotation_matrix();
    for( size_t r = 0; r < D; ++r ) for( size_t c = 0; c < D; ++c )
        if( r < 3 && c < 3 ) ENSURES_EQ( E( m.array, D, r, c ), E( s.array, 3, r, c ) ); else ENSURES( E( m.array, D, r, c ) == E( om, D, r, c ) );
    UNCHANGED( q, o );
}
template< class T > void composition()
{
    Quaternion< T > p, q; vc::sym_unit( p.array, 4 ); vc::sym_unit( q.array, 4 );
    const Matrix< 3, 3, T > m = ( p * q ).get_rotation_matrix(), a = p.get_rotation_matrix(), b = q.get_rotation_matrix(), i = q.get_conjugate().get_rotation_matrix();
    for( size_t r = 0; r < 3; ++r ) for( size_t c = 0; c < 3; ++c )
    {
        ENSURES_EQ( E( m.array, 3, r, c ), E( a.array, 3, r, 0 ) * E( b.array, 3, 0, c ) + E( a.array, 3, r, 1 ) * E( b.array, 3, 1, c ) + E( a.array, 3, r, 2 ) * E( b.array, 3, 2, c ) );
        ENSURES_EQ( E( i.array, 3, r, c ), E( b.array, 3, c, r ) );
    }
}
// the rotation matrix of a unit quaternion, by the standard formula
template< size_t D, class T, class A > void fill( Matrix< D, D, T >& m, const A& p )
{
    const T x = p[ 0 ], y = p[ 1 ], z = p[ 2 ], w = p[ 3 ];
    E( m.array, D, 0, 0 ) = 1 - 2 * ( y * y + z * z ); E( m.array, D, 0, 1 ) = 2 * ( x * y - w * z );     E( m.array, D, 0, 2 ) = 2 * ( x * z + w * y );
    E( m.array, D, 1, 0 ) = 2 * ( x * y + w * z );     E( m.array, D, 1, 1 ) = 1 - 2 * ( x * x + z * z ); E( m.array, D, 1, 2 ) = 2 * ( y * z - w * x );
    E( m.array, D, 2, 0 ) = 2 * ( x * z - w * y );     E( m.array, D, 2, 1 ) = 2 * ( y * z + w * x );     E( m.array, D, 2, 2 ) = 1 - 2 * ( x * x + y * y );
}
// from the matrix of any unit quaternion back to it (up to sign)
template< size_t D, class T, bool CTOR > void back()
{
    T p[ 4 ]; vc::sym_unit( p, 4 ); Matrix< D, D, T > m; vc::sym( m ); fill( m, p ); auto o = vc::save( m ); const Matrix< D, D, T >& cm = m;
    Quaternion< T > q; vc::sym( q );
    if( CTOR ) q = Quaternion< T >( cm ); else q.set( cm );
    UNCHANGED( m, o );
    T s = 0; for( size_t i = 0; i < 4; ++i ) s += q.array[ i ] * q.array[ i ];
    ENSURES_EQ( s, T( 1 ) );
    for( size_t i = 0; i < 4; ++i ) for( size_t j = 0; j <= i; ++j ) ENSURES_EQ( q.array[ i ] * q.array[ j ], p[ i ] * p[ j ] );   // q = p or q = -p
    const Matrix< 3, 3, T > n = q.get_rotation_matrix();
    for( size_t r = 0; r < 3; ++r ) for( size_t c = 0; c < 3; ++c ) ENSURES_EQ( E( n.array, 3, r, c ), E( o, D, r, c ) );
}
// any orthonormal matrix of determinant one: its quaternion is a unit quaternion whose matrix it is
template< size_t D, class T > void from_matrix()
{
    Matrix< D, D, T > m; vc::sym( m ); if( vc_random() ) { T r[ 4 ]; vc::sym_unit( r, 4 ); fill( m, r ); }
    auto o = vc::save( m ); const Matrix< D, D, T >& cm = m;
    for( size_t i = 0; i < 3; ++i ) for( size_t j = 0; j <= i; ++j )
    {
        T a = 0; for( size_t k = 0; k < 3; ++k ) a += E( o, D, k, i ) * E( o, D, k, j );
        REQUIRES( vc::eq( a, T( i == j ) ) );
    }
    for( size_t i = 0; i < 3; ++i )   // determinant one: the third column is the cross product of the others
        REQUIRES( vc::eq( E( o, D, i, 2 ), E( o, D, ( i + 1 ) % 3, 0 ) * E( o, D, ( i + 2 ) % 3, 1 ) - E( o, D, ( i + 2 ) % 3, 0 ) * E( o, D, ( i + 1 ) % 3, 1 ) ) );
    vc_cover( "some rotation" );
    Quaternion< T > q; vc::sym( q ); q.set( cm );
    UNCHANGED( m, o );
    T s = 0; for( size_t i = 0; i < 4; ++i ) s += q.array[ i ] * q.array[ i ];
    ENSURES_EQ( s, T( 1 ) );
    const Matrix< 3, 3, T > n = q.get_rotation_matrix();
    for( size_t r = 0; r < 3; ++r ) for( size_t c = 0; c < 3; ++c ) ENSURES_EQ( E( n.array, 3, r, c ), E( o, D, r, c ) );
}
#define FD( n, ... ) PROVE( n##_f, __VA_ARGS__< float > ) PROVE( n##_d, __VA_ARGS__< double > )
FD( to_matrix, to_matrix ) FD( composition, composition ) PROVE_FD( into3, into, 3 ) PROVE_FD( into4, into, 4 ) PROVE_FD( into5, into, 5 )
#define B( D ) PROVE( set##D##_f, back< D, float, false > ) PROVE( set##D##_d, back< D, double, false > ) PROVE( construct##D##_f, back< D, float, true > ) PROVE( construct##D##_d, back< D, double, true > )
B( 3 ) B( 4 ) B( 5 )
PROVE_FD( from_matrix3, from_matrix, 3 ) PROVE_FD( from_matrix4, from_matrix, 4 )

static void canary() { typedef double T; Quaternion< T > q; vc::sym_unit( q.array, 4 ); const Matrix< 3, 3, T > m = q.get_rotation_matrix(); ENSURES_EQ( m.array[ 1 ], m.array[ 3 ] ); }
REFUTE( symmetric, canary )
static void canary2() { typedef double T; T p[ 4 ]; vc::sym_unit( p, 4 ); Matrix< 3, 3, T > m; fill( m, p ); Quaternion< T > q( m ); for( size_t i = 0; i < 4; ++i ) ENSURES_EQ( q.array[ i ], p[ i ] ); }
REFUTE( sign_determined, canary2 )

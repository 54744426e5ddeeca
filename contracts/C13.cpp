// C13: rotations preserve lengths, angles and orientation
// VC-CONFIG-QUICK: release=-DNDEBUG
#include "vc.h"
#include <vmmlib/vector.hpp>
#include <vmmlib/matrix.hpp>
#include <vmmlib/util.hpp>
using namespace vmml;
#define E( a, r, c ) ( a ).array[ ( r ) + 4 * ( c ) ]

template< class T > void check_rotation( const Matrix< 4, 4, T >& m )
{
    // orthonormal columns and rows
    for( size_t i = 0; i < 3; ++i ) for( size_t j = 0; j < 3; ++j )
    {
        T a = 0, b = 0; for( size_t k = 0; k < 3; ++k ) { a += E( m, k, i ) * E( m, k, j ); b += E( m, i, k ) * E( m, j, k ); }
        ENSURES_EQ( a, T( i == j ) ); ENSURES_EQ( b, T( i == j ) );
    }
    ENSURES_EQ( E( m, 0, 0 ) * ( E( m, 1, 1 ) * E( m, 2, 2 ) - E( m, 1, 2 ) * E( m, 2, 1 ) ) - E( m, 0, 1 ) * ( E( m, 1, 0 ) * E( m, 2, 2 ) - E( m, 1, 2 ) * E( m, 2, 0 ) )
                + E( m, 0, 2 ) * ( E( m, 1, 0 ) * E( m, 2, 1 ) - E( m, 1, 1 ) * E( m, 2, 0 ) ), T( 1 ) );
    for( size_t i = 0; i < 4; ++i ) { ENSURES_EQ( E( m, 3, i ), T( i == 3 ) ); ENSURES_EQ( E( m, i, 3 ), T( i == 3 ) ); }
}
template< class T > void same( const Matrix< 4, 4, T >& a, const Matrix< 4, 4, T >& b ) { for( size_t i = 0; i < 16; ++i ) ENSURES_EQ( a.array[ i ], b.array[ i ] ); }
template< class T > Matrix< 4, 4, T > about( int k, T t )
{
    Matrix< 4, 4, T > m;
    switch( k ) { case 0: m.rotate_x( t ); break; case 1: m.rotate_y( t ); break; case 2: m.rotate_z( t ); break;
                  case 3: m.pre_rotate_x( t ); break; case 4: m.pre_rotate_y( t ); break; default: m.pre_rotate_z( t ); }
    return m;
}
template< class T, int K > void axis()
{
    const T t = vc::any< T >(), u = vc::any< T >();
    const Matrix< 4, 4, T > m = about< T >( K, t ), n = about< T >( K, u ), w = about< T >( K, t + u ), inv = about< T >( K, -t ), id, z = about< T >( K, 0 );
    check_rotation( m );
    for( size_t i = 0; i < 3; ++i ) ENSURES_EQ( E( m, i, K % 3 ), T( i == K % 3 ) );   // the axis is fixed
    same( z, id ); same( m * n, w ); same( m * inv, id ); same( inv * m, id );
    // applied one after the other
    Matrix< 4, 4, T > s( m ); switch( K ) { case 0: s.rotate_x( u ); break; case 1: s.rotate_y( u ); break; case 2: s.rotate_z( u ); break;
                  case 3: s.pre_rotate_x( u ); break; case 4: s.pre_rotate_y( u ); break; default: s.pre_rotate_z( u ); }
    same( s, w );
    // pre-rotation undoes rotation
    if( K < 3 ) { const Matrix< 4, 4, T > p = about< T >( K + 3, t ); same( p * m, id ); }
}
template< class T > void any_axis()
{
    Vector< 3, T > k; vc::sym_unit( k.array, 3 ); const T t = vc::any< T >();
    Matrix< 4, 4, T > m, n, id, z; vc::sym( m ); vc::sym( n ); vc::sym( z ); m.rotate( t, k ); n.rotate( -t, k ); z.rotate( T( 0 ), k );
    check_rotation( m );
    for( size_t i = 0; i < 3; ++i ) { T s = 0; for( size_t j = 0; j < 3; ++j ) s += E( m, i, j ) * k.array[ j ]; ENSURES_EQ( s, k.array[ i ] ); }
    same( z, id ); same( m * n, id ); same( n * m, id );
}
template< class T > void angles_add()
{
    Vector< 3, T > k; vc::sym_unit( k.array, 3 ); const T t = vc::any< T >(), u = vc::any< T >();
    Matrix< 4, 4, T > m, n, w; m.rotate( t, k ); n.rotate( u, k ); w.rotate( t + u, k );
    same( m * n, w );
}
// the coordinate axes are special cases of the general axis
template< class T > void special()
{
    const T t = vc::any< T >();
    for( int i = 0; i < 3; ++i ) { Matrix< 4, 4, T > m; m.rotate( t, Vector< 3, T >( T( i == 0 ), T( i == 1 ), T( i == 2 ) ) ); same( m, about< T >( i, t ) ); }
}
template< class T > void vectors()
{
    Vector< 3, T > k, v, w; vc::sym_unit( k.array, 3 ); vc::sym( v ); vc::sym( w ); const T t = vc::any< T >();
    const Vector< 3, T > rv = v.rotate( t, k ), rw = w.rotate( t, k ), rk = k.rotate( t, k ), back = rv.rotate( -t, k ), z = v.rotate( T( 0 ), k );
    T a = 0, b = 0, l = 0, lr = 0; for( size_t i = 0; i < 3; ++i ) { a += v.array[ i ] * w.array[ i ]; b += rv.array[ i ] * rw.array[ i ]; l += v.array[ i ] * v.array[ i ]; lr += rv.array[ i ] * rv.array[ i ]; }
    ENSURES_EQ( b, a ); ENSURES_EQ( lr, l );
    Matrix< 4, 4, T > m; m.rotate( t, k ); const Vector< 3, T > mv = m * v;
    for( size_t i = 0; i < 3; ++i ) { ENSURES_EQ( rk.array[ i ], k.array[ i ] ); ENSURES_EQ( back.array[ i ], v.array[ i ] ); ENSURES_EQ( z.array[ i ], v.array[ i ] ); ENSURES_EQ( mv.array[ i ], rv.array[ i ] ); }
    // orientation is kept: the cross product turns along
    const Vector< 3, T > c = v.cross( w ), rc = rv.cross( rw ), cr = c.rotate( t, k );
    for( size_t i = 0; i < 3; ++i ) ENSURES_EQ( rc.array[ i ], cr.array[ i ] );
}
#define FD( n, ... ) PROVE( n##_f, __VA_ARGS__ ) 
PROVE( x_f, axis< float, 0 > ) PROVE( y_f, axis< float, 1 > ) PROVE( z_f, axis< float, 2 > ) PROVE( pre_x_f, axis< float, 3 > ) PROVE( pre_y_f, axis< float, 4 > ) PROVE( pre_z_f, axis< float, 5 > )
PROVE( x_d, axis< double, 0 > ) PROVE( y_d, axis< double, 1 > ) PROVE( z_d, axis< double, 2 > ) PROVE( pre_x_d, axis< double, 3 > ) PROVE( pre_y_d, axis< double, 4 > ) PROVE( pre_z_d, axis< double, 5 > )
PROVE( any_axis_f, any_axis< float > ) PROVE( any_axis_d, any_axis< double > ) PROVE( angles_add_f, angles_add< float > ) PROVE( angles_add_d, angles_add< double > )
PROVE( special_f, special< float > ) PROVE( special_d, special< double > ) PROVE( vector_f, vectors< float > ) PROVE( vector_d, vectors< double > )
static void canary() { typedef double T; const T t = vc::any< T >(), u = vc::any< T >(); same( about< T >( 0, t ) * about< T >( 1, u ), about< T >( 1, u ) * about< T >( 0, t ) ); }
REFUTE( rotations_commute, canary )
static void canary2() { typedef float T; const T t = vc::any< T >(); Vector< 3, T > k; vc::sym( k ); Matrix< 4, 4, T > m; m.rotate( t, k ); check_rotation( m ); }
REFUTE( axis_not_unit, canary2 )

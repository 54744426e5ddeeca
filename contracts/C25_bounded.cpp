// C25, bounded stand-in on the real streams and files: only used when the contracts of C25.cpp no longer compile against the
// ghost streams (a construct of <iostream> they do not know).  Files are written in the scratch directory it is started in.
#include "vc.h"
#include <vmmlib/vector.hpp>
#include <vmmlib/matrix.hpp>
#include <fstream>
#include <iomanip>
#include <sstream>
#include <string>
#include <sys/stat.h>
using namespace vmml;
static size_t size_of( const std::string& p ) { struct stat s; return stat( p.c_str(), &s ) ? size_t( -1 ) : size_t( s.st_size ); }
template< size_t M, size_t N, class T > void raw()
{
    static const char* const p[ 5 ][ 3 ] = { { ".", "m", "./m.raw" }, { "vcd/", "matrix.raw", "vcd/matrix.raw" }, { "vcd", "x", "vcd/x.raw" }, { "vcd/", "raw", "vcd/raw" }, { "", "m.dat", "m.dat.raw" } };
    mkdir( "vcd", 0700 );
    for( int i = 0; i < 5; ++i )
    {
        std::remove( p[ i ][ 2 ] );
        Matrix< M, N, T > a, b; vc::sym( a ); vc::sym( b ); auto oa = vc::save( a ); auto ob = vc::save( b );
        const std::string dir( p[ i ][ 0 ] ), name( p[ i ][ 1 ] ), back( std::string( p[ i ][ 2 ] ).substr( std::string( p[ i ][ 2 ] ).find( '/' ) == std::string::npos ? 0 : std::string( p[ i ][ 2 ] ).find( '/' ) + 1 ) );
        b.read_from_raw( dir, back ); UNCHANGED( b, ob );
        a.write_to_raw( dir, name ); UNCHANGED( a, oa ); ENSURES( size_of( p[ i ][ 2 ] ) == M * N * sizeof( T ) );
        b.read_from_raw( dir, back ); UNCHANGED( b, oa );
        a.write_to_raw( dir, name ); UNCHANGED( a, oa ); ENSURES( size_of( p[ i ][ 2 ] ) == M * N * sizeof( T ) );
        std::remove( p[ i ][ 2 ] );
    }
}
template< class A, class T > void text( A& a, A& b, const T* v, size_t n )
{
    auto oa = vc::save( a ); const A& ca = a;
    std::stringstream o; o.precision( 18 ); const std::ios_base::fmtflags f = o.flags();
    ca.write_to_stream( o ); UNCHANGED( a, oa ); ENSURES( o.precision() == 18 ); ENSURES( o.flags() == f );
    std::stringstream i( o.str() ); for( size_t k = 0; k < n; ++k ) { T x; i >> x; ENSURES( bool( i ) ); ENSURES( x == v[ k ] ); }
    std::string rest; i >> rest; ENSURES( rest.empty() );
    std::stringstream j( o.str() + " 77" ); b.read_from_stream( j ); UNCHANGED( b, oa ); int e = 0; j >> e; ENSURES( e == 77 );
    std::stringstream q; q.precision( 18 ); q << ca; UNCHANGED( a, oa ); ENSURES( q.precision() == 18 ); ENSURES( q.flags() == f );
    // operator<< rounds to five digits
    std::string s( q.str() ); for( size_t k = 0; k < s.size(); ++k ) if( s[ k ] == '|' || s[ k ] == '[' || s[ k ] == ']' ) s[ k ] = ' ';
    std::stringstream r( s ); for( size_t k = 0; k < n; ++k ) { double x; r >> x; ENSURES( bool( r ) ); ENSURES( std::fabs( x - double( v[ k ] ) ) <= 1e-3 * ( 1 + std::fabs( double( v[ k ] ) ) ) ); }
    r >> rest; ENSURES( rest.empty() );
}
template< size_t M, size_t N, class T > void mat()
{
    Matrix< M, N, T > a, b; vc::sym( a ); vc::sym( b ); T v[ M * N ]; for( size_t r = 0; r < M; ++r ) for( size_t c = 0; c < N; ++c ) v[ r * N + c ] = a.array[ r + M * c ];
    text( a, b, v, M * N );
}
template< size_t M, class T > void vec()
{
    Vector< M, T > a, b; vc::sym( a ); vc::sym( b ); T v[ M ]; for( size_t r = 0; r < M; ++r ) v[ r ] = a.array[ r ];
    text( a, b, v, M );
}
#define S( m, n ) PROVE_FD( raw##m##n, raw, m, n ) PROVE( raw##m##n##_i, raw< m, n, int > ) PROVE( raw##m##n##_b, raw< m, n, uint8_t > ) PROVE_FD( mat##m##n, mat, m, n ) PROVE( mat##m##n##_i, mat< m, n, int > )
S( 1, 1 ) S( 2, 3 ) S( 3, 3 ) S( 4, 4 ) S( 5, 2 )
#define W( m ) PROVE_FD( vec##m, vec, m ) PROVE( vec##m##_i, vec< m, int > )
W( 1 ) W( 2 ) W( 3 ) W( 4 ) W( 7 )

// C25: stored matrices and vectors are read back unchanged.   VC-REAL-LIBRARY (std::string is executed, streams are ghost_stream.h)
// VC-CONFIG-QUICK: safe=-DVMMLIB_SAFE_ACCESSORS -DVMMLIB_THROW_EXCEPTIONS; release=-DNDEBUG
#include "vc.h"
#include <vmmlib/exception.hpp>
#include "ghost_stream.h"
#include <vmmlib/vector.hpp>
#include <vmmlib/matrix.hpp>
#include <vmmlib/quaternion.hpp>
#include <vmmlib/frustum.hpp>
template class std::basic_string< char >;   // the bodies of the real std::string, to be executed
using namespace vmml;
typedef std::vc_tok Tok;

static bool ends_raw( const char* n ) { size_t l = 0; while( n[ l ] ) ++l; return l >= 3 && n[ l - 3 ] == 'r' && n[ l - 2 ] == 'a' && n[ l - 1 ] == 'w'; }
// dir, "/" unless dir is empty or ends in one, name, ".raw" unless the name ends in raw
struct Path
{
    char s[ 48 ];
    Path( const char* d, const char* n, bool suffix )
    {
        size_t k = 0; for( ; d[ k ]; ++k ) s[ k ] = d[ k ];
        if( k && s[ k - 1 ] != '/' ) s[ k++ ] = '/';
        for( size_t j = 0; n[ j ]; ++j ) s[ k++ ] = n[ j ];
        if( suffix && !ends_raw( n ) ) { s[ k++ ] = '.'; s[ k++ ] = 'r'; s[ k++ ] = 'a'; s[ k++ ] = 'w'; }
        s[ k ] = 0;
    }
};
template< size_t M, size_t N, class T > void raw_case( const char* d, const char* n )
{
    std::vc_files& fs = std::vc_fs(); fs = std::vc_files(); std::vc_cout().n = 0;
    Matrix< M, N, T > a, b; vc::sym( a ); vc::sym( b ); auto oa = vc::save( a ); auto ob = vc::save( b );
    std::string dir( d ), name( n ), back( n ); if( !ends_raw( n ) ) back += ".raw";
    // nothing there yet: reading leaves the object alone
    const int heap = vc_heap(); b.read_from_raw( dir, back ); UNCHANGED( b, ob ); ENSURES( vc_heap() == heap );
    a.write_to_raw( dir, name ); UNCHANGED( a, oa ); ENSURES( vc_heap() == heap );
    const int k = fs.find( Path( d, n, true ).s ); ENSURES( k == 0 ); if( k != 0 ) return;
    ENSURES( fs.f[ 0 ].len == M * N * sizeof( T ) ); ENSURES( !fs.f[ 1 ].exists ); ENSURES( fs.opened == 1 ); ENSURES( fs.closed == 1 );
    b.read_from_raw( dir, back ); UNCHANGED( b, oa ); UNCHANGED( a, oa ); ENSURES( vc_heap() == heap );
    ENSURES( fs.opened == 2 ); ENSURES( fs.closed == 2 );
    ENSURES( dir == d ); ENSURES( name == n );
}
template< size_t M, size_t N, class T > void raw()
{
    static const char* const p[ 7 ][ 2 ] = { { "", "m.raw" }, { ".", "m" }, { "d/", "matrix.raw" }, { "a/b", "x" }, { "a/b/", "raw" }, { "/", "ab" }, { "dir", "m.dat" } };
    for( int i = 0; i < 7; ++i ) raw_case< M, N, T >( p[ i ][ 0 ], p[ i ][ 1 ] );
}
// two matrices under two names do not disturb each other, a second write replaces the first, a failing write does nothing
template< size_t M, size_t N, class T > void files()
{
    std::vc_files& fs = std::vc_fs(); fs = std::vc_files(); std::vc_cout().n = 0; const std::string d( "d" ), p( "p.raw" ), q( "q.raw" );
    Matrix< M, N, T > a, b, c, x; vc::sym( a ); vc::sym( b ); vc::sym( c ); vc::sym( x ); auto oa = vc::save( a ); auto ob = vc::save( b ); auto oc = vc::save( c );
    a.write_to_raw( d, p ); b.write_to_raw( d, q );
    x.read_from_raw( d, p ); UNCHANGED( x, oa ); x.read_from_raw( d, q ); UNCHANGED( x, ob );
    c.write_to_raw( d, p ); x.read_from_raw( d, p ); UNCHANGED( x, oc ); x.read_from_raw( d, q ); UNCHANGED( x, ob );
    fs.readonly = true; a.write_to_raw( d, q ); x.read_from_raw( d, q ); UNCHANGED( x, ob ); UNCHANGED( a, oa ); ENSURES( fs.opened == fs.closed );
}
#define RAW( m, n ) PROVE( raw_##m##n##_d, raw< m, n, double > ) PROVE( raw_##m##n##_f, raw< m, n, float > ) PROVE( raw_##m##n##_i, raw< m, n, int > ) PROVE( raw_##m##n##_b, raw< m, n, uint8_t > ) PROVE( raw_##m##n##_s, raw< m, n, int16_t > )
// sizes beyond any block a reader or writer may work in
template< size_t M, size_t N, class T > void raw_large() { raw_case< M, N, T >( "d", "m" ); }
PROVE( large_33_32_f, raw_large< 33, 32, float > ) PROVE( large_17_16_d, raw_large< 17, 16, double > ) PROVE( large_33_32_d, raw_large< 33, 32, double > ) PROVE( large_23_23_b, raw_large< 23, 23, uint8_t > ) PROVE( large_9_30_s, raw_large< 9, 30, int16_t > )
PROVE_T( large_48_50_d, raw_large< 48, 50, double > ) PROVE_T( large_130_130_b, raw_large< 130, 130, uint8_t > )
PROVE( raw_43_l, raw< 4, 3, int64_t > ) PROVE( raw_34_v, raw< 3, 4, uint16_t > ) PROVE( raw_55_d, raw< 5, 5, double > ) PROVE( raw_27_u, raw< 2, 7, unsigned > )
RAW( 1, 1 ) RAW( 2, 3 ) RAW( 3, 3 ) RAW( 4, 4 ) RAW( 5, 2 ) RAW( 1, 6 )
PROVE( files_23_d, files< 2, 3, double > ) PROVE( files_44_f, files< 4, 4, float > ) PROVE( files_31_i, files< 3, 1, int > )

// ---- text
static bool blank( const char* s ) { for( ; *s; ++s ) if( *s != ' ' && *s != '\n' && *s != '\t' ) return false; return true; }
template< class T > bool same_tok( const Tok& t, T v ) { return t.kind == 'i' && t.i == int64_t( v ); }
inline bool same_tok( const Tok& t, float v ) { return t.kind == 'r' && t.d == double( v ); }
inline bool same_tok( const Tok& t, double v ) { return t.kind == 'r' && t.d == v; }
// the values among the tokens are v[0..n), in order; with `bare` everything else is white space, and there is some between any two
template< class T > void emitted( const std::ostream& o, const T* v, size_t n, bool bare )
{
    size_t k = 0; bool sep = true;
    for( int i = 0; i < o.n; ++i )
    {
        if( o.tok[ i ].kind == 't' ) { if( bare ) ENSURES( blank( o.tok[ i ].s ) ); sep = sep || o.tok[ i ].s[ 0 ] != 0; continue; }
        ENSURES( k < n ); if( k >= n ) return;
        // what is to be read back is neither shortened nor written in another base than the caller asked for
        if( bare ) { ENSURES( o.tok[ i ].p >= o.pr ); ENSURES( ( o.tok[ i ].f & std::ios_base::basefield ) == ( o.fl & std::ios_base::basefield ) ); }
        ENSURES( same_tok( o.tok[ i ], v[ k ] ) ); ENSURES( sep || int( o.tok[ i ].w ) > 16 ); sep = false; ++k;
    }
    ENSURES( k == n );
}
template< class T > void supply( std::istream& s, const T* v, size_t n ) { for( size_t k = 0; k < n; ++k ) { s.d[ k ] = 0; s.i[ k ] = int64_t( v[ k ] ); } s.n = int( n ); }
inline void supply( std::istream& s, const float* v, size_t n ) { for( size_t k = 0; k < n; ++k ) { s.d[ k ] = v[ k ]; s.i[ k ] = 0; } s.n = int( n ); }
inline void supply( std::istream& s, const double* v, size_t n ) { for( size_t k = 0; k < n; ++k ) { s.d[ k ] = v[ k ]; s.i[ k ] = 0; } s.n = int( n ); }
// any formatting the caller may have chosen
inline void formatting( std::ostream& o )
{
    static const std::ios_base::fmtflags A[ 4 ] = { std::ios_base::fmtflags( 0 ), std::ios_base::left, std::ios_base::right, std::ios_base::internal };
    const size_t k = vc_size( 0, 3 ); o.fl = std::ios_base::dec | A[ 0 ]; for( size_t j = 1; j < 4; ++j ) if( k == j ) o.fl = std::ios_base::dec | A[ j ];
    o.pr = vc_int( 0, 20 );
}
#define KEEPS_FORMAT( o, stmt ) { formatting( o ); const std::ios_base::fmtflags f_ = o.fl; const std::streamsize p_ = o.pr; stmt; ENSURES( o.fl == f_ ); ENSURES( o.pr == p_ ); }
template< size_t M, size_t N, class T > void matrix_text()
{
    Matrix< M, N, T > a, b; vc::sym( a ); vc::sym( b ); auto oa = vc::save( a ); T v[ M * N ]; for( size_t r = 0; r < M; ++r ) for( size_t c = 0; c < N; ++c ) v[ r * N + c ] = a.array[ r + M * c ];
    const Matrix< M, N, T >& ca = a;
    { std::ostream o; KEEPS_FORMAT( o, ca.write_to_stream( o ) ) emitted( o, v, M * N, true ); UNCHANGED( a, oa ); }
    { std::ostream o; KEEPS_FORMAT( o, o << ca ) emitted( o, v, M * N, false ); UNCHANGED( a, oa ); }
    std::istream s; supply( s, v, M * N ); b.read_from_stream( s ); ENSURES( s.pos == int( M * N ) ); UNCHANGED( b, oa );
}
template< size_t M, class T > void vector_text()
{
    Vector< M, T > a, b; vc::sym( a ); vc::sym( b ); auto oa = vc::save( a ); const Vector< M, T >& ca = a;
    { std::ostream o; KEEPS_FORMAT( o, ca.write_to_stream( o ) ) emitted( o, oa.v, M, true ); UNCHANGED( a, oa ); }
    { std::ostream o; KEEPS_FORMAT( o, o << ca ) emitted( o, oa.v, M, false ); UNCHANGED( a, oa ); }
    std::istream s; supply( s, oa.v, M ); b.read_from_stream( s ); ENSURES( s.pos == int( M ) ); UNCHANGED( b, oa );
}
template< class T > void frustum_text()
{
    Frustum< T > a; vc::sym( a ); auto oa = vc::save( a ); const Frustum< T >& ca = a;
    std::ostream o; KEEPS_FORMAT( o, o << ca ) emitted( o, oa.v, 6, false ); UNCHANGED( a, oa );
}
template< class T > void quaternion_text()
{
    Quaternion< T > a; vc::sym( a ); auto oa = vc::save( a ); const Quaternion< T >& ca = a;
    std::ostream o; KEEPS_FORMAT( o, o << ca ) emitted( o, oa.v, 4, false ); UNCHANGED( a, oa );
}
#define T3( p, n, f, ... ) p( n##_f, f< __VA_ARGS__, float > ) p( n##_d, f< __VA_ARGS__, double > ) p( n##_i, f< __VA_ARGS__, int > ) p( n##_s, f< __VA_ARGS__, int16_t > )
T3( PROVE, mat_11, matrix_text, 1, 1 ) T3( PROVE, mat_23, matrix_text, 2, 3 ) T3( PROVE, mat_33, matrix_text, 3, 3 ) T3( PROVE, mat_44, matrix_text, 4, 4 ) T3( PROVE, mat_52, matrix_text, 5, 2 )
T3( PROVE, vec_1, vector_text, 1 ) T3( PROVE, vec_2, vector_text, 2 ) T3( PROVE, vec_3, vector_text, 3 ) T3( PROVE, vec_4, vector_text, 4 ) T3( PROVE, vec_7, vector_text, 7 )
PROVE( fru_f, frustum_text< float > ) PROVE( fru_d, frustum_text< double > ) PROVE( quat_f, quaternion_text< float > ) PROVE( quat_d, quaternion_text< double > )

// the text order is not the storage order
static void canary() { Matrix< 2, 2, double > a; vc::sym( a ); std::ostream o; a.write_to_stream( o ); emitted( o, a.array, 4, true ); }
REFUTE( storage_order, canary )
static void canary2() { std::vc_fs() = std::vc_files(); Matrix< 2, 2, float > a, b; vc::sym( a ); vc::sym( b ); auto ob = vc::save( b ); a.write_to_raw( "d", "x" ); b.read_from_raw( "d", "x.raw" ); UNCHANGED( b, ob ); }
REFUTE( nothing_read, canary2 )

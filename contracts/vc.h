// Contract language of the verifier (see DESIGN.md).  The same text is
//  (1) compiled to LLVM IR and executed symbolically: vc_* are interpreted by the engine;
//  (2) compiled natively with -DVC_NATIVE to replay a counterexample on the real code.
#ifndef VC_H
#define VC_H
#include <cstddef>
#include <cstdint>
#include <cmath>
#include <cstring>
#include <limits>

extern "C" {
// universally quantified inputs
double   vc_f64();
float    vc_f32();
int32_t  vc_i32();
uint32_t vc_u32();
uint8_t  vc_u8();
int8_t   vc_i8();
int16_t  vc_i16();
uint16_t vc_u16();
int64_t  vc_i64();
uint64_t vc_u64();
bool     vc_bool();
size_t   vc_size( size_t lo, size_t hi );   // any value in [lo,hi]
int64_t  vc_int( int64_t lo, int64_t hi );
// precondition / proof obligations
void vc_assume( bool );
void vc_check( bool, const char* );
void vc_check_eqd( double, double, const char* );
void vc_check_eqf( float, float, const char* );
bool vc_eqd( double, double );      // real equality (tolerant in the native replay)
bool vc_eqf( float, float );
float vc_rnd32( double );           // conversion of a double to float
void vc_cover( const char* );       // this point must be reachable
int  vc_heap();                      // number of blocks allocated and not yet released
void vc_stops( bool );                // a failed assertion ends the program here as documented
bool vc_symbolic();                 // true in the verifier, false in the native replay
bool vc_random();                   // true in the native bounded stand-in only
}

#define VC_STR2( x ) #x
#define VC_STR( x ) VC_STR2( x )
#define REQUIRES( c ) vc_assume( c )
#define ENSURES( c ) vc_check( ( c ), #c " @" VC_STR( __LINE__ ) )

namespace vc
{
template< class T > inline T any();
template<> inline double   any< double >()   { return vc_f64(); }
template<> inline float    any< float >()    { return vc_f32(); }
template<> inline int32_t  any< int32_t >()  { return vc_i32(); }
template<> inline uint32_t any< uint32_t >() { return vc_u32(); }
template<> inline uint8_t  any< uint8_t >()  { return vc_u8(); }
template<> inline int8_t   any< int8_t >()   { return vc_i8(); }
template<> inline uint64_t any< uint64_t >() { return vc_u64(); }
template<> inline int64_t  any< int64_t >()  { return vc_i64(); }
template<> inline int16_t  any< int16_t >()  { return vc_i16(); }
template<> inline uint16_t any< uint16_t >() { return vc_u16(); }
template<> inline bool     any< bool >()     { return vc_bool(); }

inline void check_eq( double a, double b, const char* m ) { vc_check_eqd( a, b, m ); }
inline void check_eq( float a, float b, const char* m )   { vc_check_eqf( a, b, m ); }
template< class T > inline void check_eq( T a, T b, const char* m ) { vc_check( a == b, m ); }
inline bool eq( double a, double b ) { return vc_eqd( a, b ); }
inline bool eq( float a, float b )   { return vc_eqf( a, b ); }
template< class T > inline bool eq( T a, T b ) { return a == b; }

// raw storage of vmmlib objects: contracts never read them through the code under test
template< size_t N, class T > struct arr { T v[ N ]; T& operator[]( size_t i ) { return v[ i ]; }
                                           const T& operator[]( size_t i ) const { return v[ i ]; } };
template< size_t N, class T > inline void sym( T (&a)[ N ] ) { for( size_t i = 0; i < N; ++i ) a[ i ] = any< T >(); }
template< class A > inline void sym( A& a ) { sym( a.array ); }
template< size_t N, class T > inline arr< N, T > save( const T (&a)[ N ] )
{ arr< N, T > r; for( size_t i = 0; i < N; ++i ) r.v[ i ] = a[ i ]; return r; }
template< class A > inline auto save( const A& a ) -> decltype( save( a.array ) ) { return save( a.array ); }
template< size_t N, class T > inline void same( const T (&a)[ N ], const arr< N, T >& o, const char* m )
{ for( size_t i = 0; i < N; ++i ) vc_check( a[ i ] == o.v[ i ], m ); }
}

namespace vc
{
// any unit-length n-tuple (the bounded stand-in normalises its random inputs)
template< class T > inline void sym_unit( T* a, size_t n )
{
    T s = 0;
    for( size_t i = 0; i < n; ++i ) { a[ i ] = any< T >(); s += a[ i ] * a[ i ]; }
    if( vc_random() )
    {
        REQUIRES( s > T( 0 ) );
        const T l = std::sqrt( s );
        s = 0;
        for( size_t i = 0; i < n; ++i ) { a[ i ] /= l; s += a[ i ] * a[ i ]; }
    }
    REQUIRES( eq( s, T( 1 ) ) );
}
}

namespace vc
{
// any value whose magnitude, sums and differences are representable (integers: half the range; reals: any)
template< class T, bool I > struct tame_ { static T get() { return any< T >(); } };
template< class T > struct tame_< T, true > { static T get() { const int64_t h = std::numeric_limits< T >::max() / 2; return T( vc_int( -h, h ) ); } };
template< class T > inline T tame() { return tame_< T, std::numeric_limits< T >::is_integer && std::numeric_limits< T >::is_signed >::get(); }
template< class A > inline void sym_tame( A& a ) { for( auto& x : a.array ) x = tame< typename A::value_type >(); }
}

#define ENSURES_EQ( a, b ) vc::check_eq( ( a ), ( b ), #a " == " #b " @" VC_STR( __LINE__ ) )
// frame condition: the object still holds the saved value
#define UNCHANGED( obj, old ) vc::same( ( obj ).array, old, "frame: " #obj " unchanged @" VC_STR( __LINE__ ) )

#ifdef VC_NATIVE
struct vc_reg { vc_reg( const char* n, void (*f)() ); };
#define VC_ENTRY( pfx, name, ... ) extern "C" void pfx##name() { __VA_ARGS__(); } \
    static vc_reg reg_##pfx##name( #pfx #name, pfx##name );
#else
#define VC_ENTRY( pfx, name, ... ) extern "C" void pfx##name() { __VA_ARGS__(); }
#endif
// one of the less usual integer types, a different one from shape to shape
namespace vc
{
template< size_t... D > struct sum_ { static const size_t value = 0; };
template< size_t A, size_t... D > struct sum_< A, D... > { static const size_t value = A + sum_< D... >::value; };
template< size_t K > struct alt_;
template<> struct alt_< 0 > { typedef int64_t type; };
template<> struct alt_< 1 > { typedef int16_t type; };
template<> struct alt_< 2 > { typedef uint64_t type; };
template<> struct alt_< 3 > { typedef int8_t type; };
template<> struct alt_< 4 > { typedef uint16_t type; };
template< size_t... D > struct alt : alt_< sum_< D... >::value % 5 > {};
}
// instances over element types
#define PROVE_FD( n, f, ... )  PROVE( n##_f, f< __VA_ARGS__, float > ) PROVE( n##_d, f< __VA_ARGS__, double > )
#define PROVE_I( n, f, ... )   PROVE( n##_i, f< __VA_ARGS__, int > ) PROVE( n##_u, f< __VA_ARGS__, unsigned > ) \
                               PROVE( n##_b, f< __VA_ARGS__, uint8_t > ) PROVE( n##_a, f< __VA_ARGS__, vc::alt< __VA_ARGS__ >::type > )
#define PROVE_ALL( n, f, ... ) PROVE_FD( n, f, __VA_ARGS__ ) PROVE_I( n, f, __VA_ARGS__ )
#define PROVE_T_FD( n, f, ... )  PROVE_T( n##_f, f< __VA_ARGS__, float > ) PROVE_T( n##_d, f< __VA_ARGS__, double > )
#define PROVE_T_I( n, f, ... )   PROVE_T( n##_i, f< __VA_ARGS__, int > ) PROVE_T( n##_u, f< __VA_ARGS__, unsigned > ) \
                               PROVE_T( n##_b, f< __VA_ARGS__, uint8_t > ) PROVE_T( n##_w, f< __VA_ARGS__, int16_t > ) \
                               PROVE_T( n##_l, f< __VA_ARGS__, int64_t > )
#define PROVE_T_ALL( n, f, ... ) PROVE_T_FD( n, f, __VA_ARGS__ ) PROVE_T_I( n, f, __VA_ARGS__ )
// a contract instance: verified on every run / only by the thorough command / expected to be refuted (canary)
#define PROVE( name, ... )    VC_ENTRY( vcp_, name, __VA_ARGS__ )
#define PROVE_T( name, ... )  VC_ENTRY( vct_, name, __VA_ARGS__ )
#define REFUTE( name, ... )   VC_ENTRY( vcx_, name, __VA_ARGS__ )

#endif

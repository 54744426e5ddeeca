// C23: the low-pass filter is a bounded-memory weighted blend of the last M samples.
// The history is unbounded: `step` is an inductive invariant over every state the filter can be in (any window contents, any factor).
// VC-CONFIG-QUICK: safe=-DVMMLIB_SAFE_ACCESSORS -DVMMLIB_THROW_EXCEPTIONS; release=-DNDEBUG
#include "vc.h"
#include <deque>
#include <vector>
#include <array>
#include <list>
#include <algorithm>
#include <numeric>
#include <iterator>
#include <functional>
#include <vmmlib/vector.hpp>
#define private public      // the representation invariant speaks about the window itself
#include <vmmlib/lowpass_filter.hpp>
#undef private
using namespace vmml;

// ---- values: scalars and vectors, through raw storage
template< class T > struct Val { static const size_t n = 1; static T get() { return vc::any< T >(); } static T at( const T& v, size_t ) { return v; } static void set( T& v, size_t, T x ) { v = x; } typedef T S; };
template< size_t N, class E > struct Val< Vector< N, E > >
{
    typedef E S; static const size_t n = N;
    static Vector< N, E > get() { Vector< N, E > v; vc::sym( v ); return v; }
    static E at( const Vector< N, E >& v, size_t i ) { return v.array[ i ]; }
    static void set( Vector< N, E >& v, size_t i, E x ) { v.array[ i ] = x; }
};
// documented recurrence over samples x[0] (newest) .. x[k-1]: blend with weights f, f^2, ...
template< class T > T blend( const T* x, size_t k, float f )
{
    typedef typename Val< T >::S S; T v = x[ 0 ]; double w = f;
    for( size_t j = 1; j < k; ++j, w *= f ) for( size_t i = 0; i < Val< T >::n; ++i ) Val< T >::set( v, i, S( Val< T >::at( v, i ) * S( 1 - w ) + Val< T >::at( x[ j ], i ) * S( w ) ) );
    return v;
}
#define SAME( a, b ) for( size_t i_ = 0; i_ < Val< T >::n; ++i_ ) ENSURES_EQ( Val< T >::at( a, i_ ), Val< T >::at( b, i_ ) )
// every accessor returns the value, and reading changes nothing
template< size_t M, class T > void reads( const LowpassFilter< M, T >& f, const T& v ) { for( int k = 0; k < 2; ++k ) { SAME( f.get(), v ); SAME( *f, v ); SAME( *f.operator->(), v ); } }

// ---- base + histories from a fresh filter: n samples, the factor changed before every one of them
template< size_t M, class T, size_t N > void history()
{
    float s = vc::any< float >(); LowpassFilter< M, T > f( s ); T x[ N ];
    for( size_t n = 1; n <= N; ++n )
    {
        for( size_t i = n - 1; i > 0; --i ) x[ i ] = x[ i - 1 ];
        x[ 0 ] = Val< T >::get(); const T in( x[ 0 ] );
        if( n % 2 == 0 ) { s = vc::any< float >(); const float c( s ); const T old( f.get() ); f.set_smooth_factor( c ); reads< M, T >( f, old ); }
        const T r = f.add( in ); SAME( in, x[ 0 ] );
        const T v = blend( x, n < M ? n : M, s );
        SAME( r, v ); reads< M, T >( f, v );
    }
}
// ---- inductive step: from ANY window (k <= M arbitrary samples), any value and any factor, one add() establishes the recurrence over
//      the new window, which is the old one shifted by the new sample and cut to M
template< class F > auto window( F& f, int ) -> decltype( &f._data ) { return &f._data; }
template< class F > void* window( F&, long ) { return nullptr; }
template< class D, class T > struct IsDeque { static const bool value = false; };
template< class T > struct IsDeque< std::deque< T >, T > { static const bool value = true; };
// How the filter keeps its window, found out by running it: the newest sample in front, or at the back. Any other representation
// (another container, further members, a window that is cut late) is outside the inductive step and gets bounded histories.
template< class T > struct Plain { std::deque< T > d; float f; T v; };
enum { FRONT, BACK, OTHER };
template< size_t M, class T, class D > int layout()
{
    if( sizeof( LowpassFilter< M, T > ) != sizeof( Plain< T > ) ) return OTHER;
    LowpassFilter< M, T > f( 0.5f ); D* d = (D*)window( f, 0 ); bool front = true, back = true;
    if( !d->empty() ) return OTHER;
    for( int k = 1; k <= int( M ) + 2; ++k )
    {
        T x = T(); for( size_t i = 0; i < Val< T >::n; ++i ) Val< T >::set( x, i, typename Val< T >::S( k ) );
        f.add( x ); const int n = k < int( M ) ? k : int( M );
        if( int( d->size() ) != n ) return OTHER;
        for( int j = 0; j < n; ++j ) { front = front && Val< T >::at( ( *d )[ j ], 0 ) == k - j; back = back && Val< T >::at( ( *d )[ n - 1 - j ], 0 ) == k - j; }
    }
    return front ? FRONT : back ? BACK : OTHER;
}
template< size_t M, class T, class D, bool OK > struct Step { static void run() { history< M, T, 2 * M + 2 >(); } };
template< size_t M, class T, class D > struct Step< M, T, D, true >
{
    static void run()
    {
        const int lay = layout< M, T, D >(); if( lay == OTHER ) { history< M, T, 2 * M + 2 >(); return; }
        for( size_t k = 0; k <= M; ++k )
        {
            float s = vc::any< float >(); LowpassFilter< M, T > f( s ); D* d = (D*)window( f, 0 );
            T x[ M + 1 ]; for( size_t i = 1; i <= k; ++i ) { x[ i ] = Val< T >::get(); if( lay == FRONT ) d->push_back( x[ i ] ); else d->push_front( x[ i ] ); }
            const_cast< T& >( f.get() ) = Val< T >::get(); s = vc::any< float >(); f.set_smooth_factor( s );
            ENSURES( d->size() == k ); for( size_t i = 1; i <= k; ++i ) SAME( ( *d )[ lay == FRONT ? i - 1 : k - i ], x[ i ] );
            x[ 0 ] = Val< T >::get(); const T in( x[ 0 ] );
            const T r = f.add( in ); SAME( in, x[ 0 ] );
            const size_t n = k + 1 < M ? k + 1 : M;
            for( int again = 0; again < 2; ++again )
            {
                ENSURES( d->size() == n ); for( size_t i = 0; i < n; ++i ) SAME( ( *d )[ lay == FRONT ? i : n - 1 - i ], x[ i ] );
                if( again ) break;
                const T v = blend( x, n, s ); SAME( r, v ); reads< M, T >( f, v );
            }
        }
    }
};
template< size_t M, class T > void step()
{
    typedef typename std::remove_pointer< decltype( window( *(LowpassFilter< M, T >*)nullptr, 0 ) ) >::type D;
    Step< M, T, D, IsDeque< D, T >::value >::run();
}
typedef Vector< 3, float > v3f; typedef Vector< 2, double > v2d;
PROVE( step_1_f, step< 1, float > ) PROVE( step_2_f, step< 2, float > ) PROVE( step_3_f, step< 3, float > ) PROVE( step_5_f, step< 5, float > )
PROVE( step_1_d, step< 1, double > ) PROVE( step_2_d, step< 2, double > ) PROVE( step_3_d, step< 3, double > ) PROVE( step_4_d, step< 4, double > )
PROVE( step_3_v3, step< 3, v3f > ) PROVE( step_4_v2, step< 4, v2d > ) PROVE( step_8_f, step< 8, float > ) PROVE( step_16_f, step< 16, float > ) PROVE( step_20_d, step< 20, double > )
PROVE( hist_1_f, history< 1, float, 4 > ) PROVE( hist_2_f, history< 2, float, 5 > ) PROVE( hist_3_f, history< 3, float, 7 > ) PROVE( hist_3_d, history< 3, double, 7 > )
PROVE( hist_4_d, history< 4, double, 9 > ) PROVE( hist_2_v3, history< 2, v3f, 5 > ) PROVE( hist_3_v2, history< 3, v2d, 7 > )

// ---- older samples have no influence: two filters with different pasts agree after the same last M samples
template< size_t M, class T, size_t A, size_t B > void forget()
{
    float s = vc::any< float >(); LowpassFilter< M, T > f( vc::any< float >() ), g( s );
    for( size_t i = 0; i < A; ++i ) f.add( Val< T >::get() );
    for( size_t i = 0; i < B; ++i ) g.add( Val< T >::get() );
    for( size_t i = 0; i < M; ++i ) { const T x = Val< T >::get(); f.add( x ); g.add( x ); }
    for( size_t i = 0; i < M; ++i ) { const T x = Val< T >::get(); s = vc::any< float >(); f.set_smooth_factor( s ); g.set_smooth_factor( s ); const T a = f.add( x ), b = g.add( x ); SAME( a, b ); }
    SAME( f.get(), g.get() );
}
PROVE( forget_1, forget< 1, float, 0, 2 > ) PROVE( forget_2, forget< 2, double, 3, 1 > ) PROVE( forget_3, forget< 3, float, 1, 4 > ) PROVE( forget_4, forget< 4, float, 0, 5 > )

// ---- bounds: with 0 <= f <= 1 the value lies between the smallest and the largest sample of the window
// invariant of the recurrence, for windows of every length: lo <= v <= hi and 0 <= w <= 1 hold initially and are preserved by every round
template< class T > void convex()
{
    const T lo = vc::any< T >(), hi = vc::any< T >(), x0 = vc::any< T >(); const double f = vc::any< float >(); REQUIRES( f >= 0 ); REQUIRES( f <= 1 );
    REQUIRES( lo <= x0 ); REQUIRES( x0 <= hi );
    T v = x0; double w = f; ENSURES( lo <= v ); ENSURES( v <= hi ); ENSURES( w >= 0 ); ENSURES( w <= 1 );
    v = vc::any< T >(); w = vc::any< T >(); REQUIRES( lo <= v ); REQUIRES( v <= hi ); REQUIRES( w >= 0 ); REQUIRES( w <= 1 );
    const T x = vc::any< T >(); REQUIRES( lo <= x ); REQUIRES( x <= hi );
    const T n = v * ( 1 - w ) + x * w; const double m = w * f;
    ENSURES( lo <= n ); ENSURES( n <= hi ); ENSURES( m >= 0 ); ENSURES( m <= 1 );
}
PROVE( convex_d, convex< double > )
// the same on the real code, window by window
template< size_t M, size_t N > void bounds()
{
    typedef double T; const float s = vc::any< float >(); REQUIRES( s >= 0 ); REQUIRES( s <= 1 ); LowpassFilter< M, T > f( s );
    const T lo = vc::any< T >(), hi = vc::any< T >();
    for( size_t i = 0; i < N; ++i ) f.add( vc::any< T >() );                                  // unbounded old samples
    for( size_t i = 0; i < M; ++i ) { const T x = vc::any< T >(); REQUIRES( lo <= x ); REQUIRES( x <= hi ); f.add( x ); }
    ENSURES( lo <= f.get() ); ENSURES( f.get() <= hi );
}
PROVE( bounds_1, bounds< 1, 2 > ) PROVE( bounds_2, bounds< 2, 2 > ) PROVE( bounds_3, bounds< 3, 1 > )

// a sample beyond the window does matter while it is inside
static void canary()
{
    LowpassFilter< 3, double > f( vc::any< float >() ), g( f ); const double a = vc::any< double >(), b = vc::any< double >(), c = vc::any< double >(); f.add( a ); g.add( b ); f.add( c ); g.add( c ); ENSURES_EQ( f.get(), g.get() );
}
REFUTE( no_memory, canary )
static void canary2()
{
    LowpassFilter< 2, double > f( vc::any< float >() ); const double a = vc::any< double >(), b = vc::any< double >(); REQUIRES( a >= 0 ); REQUIRES( b >= 0 ); f.add( a ); f.add( b ); ENSURES( f.get() >= 0 );
}
REFUTE( any_factor, canary2 )

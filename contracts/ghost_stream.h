// Assumed contract of the stream library (the only part of <iostream>/<fstream> that /repo uses), as ghost state:
//  - a text stream is the sequence of tokens inserted / extracted, with the formatting settings in force;
//  - the file system is a table of named byte sequences; open() of a missing file for reading fails.
// The names are bound by the preprocessor, so that the code of /repo is compiled and executed unchanged.
#ifndef VC_GHOST_STREAM_H
#define VC_GHOST_STREAM_H
#include <algorithm>
#include <array>
#include <cassert>
#include <functional>
#include <initializer_list>
#include <list>
#include <memory>
#include <numeric>
#include <set>
#include <tuple>
#include <random>
#include <cstddef>
#include <cstdint>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace std
{
struct vc_file { char name[ 48 ]; unsigned char data[ 20000 ]; size_t len; bool exists; };
struct vc_files
{
    vc_file f[ 4 ]; bool readonly; int opened, closed;
    vc_files() : readonly( false ), opened( 0 ), closed( 0 ) { for( int i = 0; i < 4; ++i ) { f[ i ].exists = false; f[ i ].len = 0; } }
    static bool equal( const char* a, const char* b ) { for( size_t i = 0;; ++i ) { if( a[ i ] != b[ i ] ) return false; if( !a[ i ] ) return true; } }
    int find( const char* p ) const { for( int i = 0; i < 4; ++i ) if( f[ i ].exists && equal( f[ i ].name, p ) ) return i; return -1; }
    int create( const char* p )
    {
        int k = find( p );
        for( int i = 0; i < 4 && k < 0; ++i ) if( !f[ i ].exists ) { k = i; size_t j = 0; for( ; p[ j ]; ++j ) { if( j >= 47 ) abort(); f[ i ].name[ j ] = p[ j ]; } f[ i ].name[ j ] = 0; }
        if( k < 0 ) abort();
        f[ k ].exists = true; f[ k ].len = 0; return k;
    }
};
inline vc_files& vc_fs() { static vc_files x; return x; }

struct vc_format
{
    ios_base::fmtflags fl; streamsize pr, wd; char fc; ios_base::iostate stt;
    vc_format() : fl( ios_base::skipws | ios_base::dec ), pr( 6 ), wd( 0 ), fc( ' ' ), stt( ios_base::goodbit ) {}
    ios_base::fmtflags flags() const { return fl; }
    ios_base::fmtflags flags( ios_base::fmtflags x ) { ios_base::fmtflags o = fl; fl = x; return o; }
    ios_base::fmtflags setf( ios_base::fmtflags x ) { ios_base::fmtflags o = fl; fl = fl | x; return o; }
    ios_base::fmtflags setf( ios_base::fmtflags x, ios_base::fmtflags m ) { ios_base::fmtflags o = fl; fl = ( fl & ~m ) | ( x & m ); return o; }
    void unsetf( ios_base::fmtflags m ) { fl = fl & ~m; }
    streamsize precision() const { return pr; }
    streamsize precision( streamsize x ) { streamsize o = pr; pr = x; return o; }
    streamsize width() const { return wd; }
    streamsize width( streamsize x ) { streamsize o = wd; wd = x; return o; }
    char fill() const { return fc; }
    char fill( char x ) { char o = fc; fc = x; return o; }
    bool good() const { return stt == ios_base::goodbit; }
    bool fail() const { return ( stt & ( ios_base::failbit | ios_base::badbit ) ) != 0; }
    bool bad() const { return ( stt & ios_base::badbit ) != 0; }
    bool eof() const { return ( stt & ios_base::eofbit ) != 0; }
    bool operator!() const { return fail(); }
    explicit operator bool() const { return !fail(); }
    ios_base::iostate rdstate() const { return stt; }
    void clear( ios_base::iostate s = ios_base::goodbit ) { stt = s; }
    void setstate( ios_base::iostate s ) { stt = stt | s; }
    typedef ios_base& (*manip)( ios_base& );
    void apply( manip f )
    {
        if( f == (manip)std::left ) setf( ios_base::left, ios_base::adjustfield ); else if( f == (manip)std::right ) setf( ios_base::right, ios_base::adjustfield );
        else if( f == (manip)std::internal ) setf( ios_base::internal, ios_base::adjustfield ); else if( f == (manip)std::fixed ) setf( ios_base::fixed, ios_base::floatfield );
        else if( f == (manip)std::scientific ) setf( ios_base::scientific, ios_base::floatfield ); else if( f == (manip)std::dec ) setf( ios_base::dec, ios_base::basefield );
        else if( f == (manip)std::hex ) setf( ios_base::hex, ios_base::basefield ); else if( f == (manip)std::skipws ) setf( ios_base::skipws ); else if( f == (manip)std::noskipws ) unsetf( ios_base::skipws );
        else if( f == (manip)std::showpos ) setf( ios_base::showpos ); else if( f == (manip)std::noshowpos ) unsetf( ios_base::showpos ); else abort();
    }
};
// kind: 'r' real value, 'i' integer value, 't' text
struct vc_tok { char kind; double d; int64_t i; const char* s; char c[ 2 ]; streamsize w, p; ios_base::fmtflags f; };
class vc_ostream : public vc_format
{
public:
    enum { CAP = 160 };
    vc_tok tok[ CAP ]; int n;
    vc_ostream() : n( 0 ) {}
    vc_tok& next( char k ) { if( n >= CAP ) abort(); vc_tok& t = tok[ n++ ]; t.kind = k; t.d = 0; t.i = 0; t.s = ""; t.w = wd; t.p = pr; t.f = fl; wd = 0; return t; }
    vc_ostream& operator<<( double x ) { next( 'r' ).d = x; return *this; }
    vc_ostream& operator<<( float x ) { next( 'r' ).d = x; return *this; }
    vc_ostream& operator<<( int x ) { next( 'i' ).i = x; return *this; }
    vc_ostream& operator<<( unsigned x ) { next( 'i' ).i = x; return *this; }
    vc_ostream& operator<<( long x ) { next( 'i' ).i = x; return *this; }
    vc_ostream& operator<<( unsigned long x ) { next( 'i' ).i = x; return *this; }
    vc_ostream& operator<<( short x ) { next( 'i' ).i = x; return *this; }
    vc_ostream& operator<<( unsigned short x ) { next( 'i' ).i = x; return *this; }
    vc_ostream& operator<<( bool x ) { next( 'i' ).i = x; return *this; }
    vc_ostream& operator<<( char x ) { vc_tok& t = next( 't' ); t.c[ 0 ] = x; t.c[ 1 ] = 0; t.s = t.c; return *this; }
    vc_ostream& operator<<( const char* x ) { next( 't' ).s = x; return *this; }
    vc_ostream& operator<<( decltype( std::setw( 0 ) ) x ) { wd = x._M_n; return *this; }
    vc_ostream& operator<<( decltype( std::setprecision( 0 ) ) x ) { pr = x._M_n; return *this; }
    vc_ostream& operator<<( decltype( std::setfill( ' ' ) ) x ) { fc = x._M_c; return *this; }
    vc_ostream& operator<<( vc_ostream& (*f)( vc_ostream& ) ) { return f( *this ); }
    vc_ostream& operator<<( manip f ) { apply( f ); return *this; }
    vc_ostream& put( char x ) { return *this << x; }
    vc_ostream& flush() { return *this; }
};
// the stream iterators, over the ghost streams
template< class T > class vc_ostream_iterator
{
    vc_ostream* o; const char* d;
public:
    typedef output_iterator_tag iterator_category; typedef void value_type; typedef void difference_type; typedef void pointer; typedef void reference;
    vc_ostream_iterator( vc_ostream& s, const char* x = 0 ) : o( &s ), d( x ) {}
    vc_ostream_iterator& operator=( const T& v ) { *o << v; if( d ) *o << d; return *this; }
    vc_ostream_iterator& operator*() { return *this; }
    vc_ostream_iterator& operator++() { return *this; }
    vc_ostream_iterator& operator++( int ) { return *this; }
};
inline vc_ostream& vc_endl( vc_ostream& o ) { return o << "\n"; }
inline vc_ostream& vc_flush( vc_ostream& o ) { return o; }
inline vc_ostream& vc_cout() { static vc_ostream x; return x; }
class vc_istream : public vc_format
{
public:
    enum { CAP = 40 };
    double d[ CAP ]; int64_t i[ CAP ]; int n, pos; size_t got;
    vc_istream() : n( 0 ), pos( 0 ), got( 0 ) {}
    bool more() { if( fail() || pos >= n ) { setstate( ios_base::failbit | ios_base::eofbit ); return false; } return true; }
    vc_istream& operator>>( double& x ) { if( more() ) x = d[ pos++ ]; return *this; }
    vc_istream& operator>>( float& x ) { if( more() ) x = float( d[ pos++ ] ); return *this; }
    vc_istream& operator>>( int& x ) { if( more() ) x = int( i[ pos++ ] ); return *this; }
    vc_istream& operator>>( unsigned& x ) { if( more() ) x = unsigned( i[ pos++ ] ); return *this; }
    vc_istream& operator>>( short& x ) { if( more() ) x = short( i[ pos++ ] ); return *this; }
    vc_istream& operator>>( long& x ) { if( more() ) x = long( i[ pos++ ] ); return *this; }
    vc_istream& operator>>( unsigned long& x ) { if( more() ) x = (unsigned long)( i[ pos++ ] ); return *this; }
};
class vc_ofstream : public vc_ostream
{
    int h;
public:
    vc_ofstream() : h( -1 ) {}
    explicit vc_ofstream( const char* p, ios_base::openmode m = ios_base::out ) : h( -1 ) { open( p, m ); }
    explicit vc_ofstream( const string& p, ios_base::openmode m = ios_base::out ) : h( -1 ) { open( p.c_str(), m ); }
    ~vc_ofstream() { if( h >= 0 ) close(); }
    void open( const string& p, ios_base::openmode m = ios_base::out ) { open( p.c_str(), m ); }
    void open( const char* p, ios_base::openmode m = ios_base::out )
    {
        vc_files& fs = vc_fs();
        if( h >= 0 || fs.readonly ) { setstate( ios_base::failbit ); return; }
        if( ( m & ( ios_base::app | ios_base::ate ) ) != 0 ) abort();
        h = fs.create( p ); ++fs.opened;
    }
    bool is_open() const { return h >= 0; }
    vc_ofstream& write( const char* p, streamsize k )
    {
        if( h < 0 ) { setstate( ios_base::badbit ); return *this; }
        vc_file& f = vc_fs().f[ h ]; if( f.len + k > sizeof( f.data ) ) abort();
        memcpy( f.data + f.len, p, k ); f.len += k; return *this;
    }
    void close() { if( h < 0 ) { setstate( ios_base::failbit ); return; } h = -1; ++vc_fs().closed; }
};
class vc_ifstream : public vc_istream
{
    int h; size_t at;
public:
    vc_ifstream() : h( -1 ), at( 0 ) {}
    explicit vc_ifstream( const char* p, ios_base::openmode m = ios_base::in ) : h( -1 ), at( 0 ) { open( p, m ); }
    explicit vc_ifstream( const string& p, ios_base::openmode m = ios_base::in ) : h( -1 ), at( 0 ) { open( p.c_str(), m ); }
    ~vc_ifstream() { if( h >= 0 ) close(); }
    void open( const string& p, ios_base::openmode m = ios_base::in ) { open( p.c_str(), m ); }
    void open( const char* p, ios_base::openmode = ios_base::in )
    {
        vc_files& fs = vc_fs(); const int k = h >= 0 ? -1 : fs.find( p );
        if( k < 0 ) { setstate( ios_base::failbit ); return; }
        h = k; at = 0; ++fs.opened;
    }
    bool is_open() const { return h >= 0; }
    vc_ifstream& seekg( streamoff p, ios_base::seekdir w = ios_base::beg )
    {
        if( h < 0 || fail() ) { setstate( ios_base::failbit ); return *this; }
        const size_t b = w == ios_base::beg ? 0 : w == ios_base::cur ? at : vc_fs().f[ h ].len; if( p < 0 && size_t( -p ) > b ) { setstate( ios_base::failbit ); return *this; }
        at = b + p; clear( stt & ~ios_base::eofbit ); return *this;
    }
    streamoff tellg() const { return h < 0 || fail() ? streamoff( -1 ) : streamoff( at ); }
    vc_ifstream& read( char* p, streamsize k )
    {
        if( h < 0 || fail() ) { setstate( ios_base::failbit ); got = 0; return *this; }
        const vc_file& f = vc_fs().f[ h ]; got = k; if( at > f.len || at + k > f.len ) { got = at > f.len ? 0 : f.len - at; setstate( ios_base::failbit | ios_base::eofbit ); }
        memcpy( p, f.data + at, got ); at += got; return *this;
    }
    streamsize gcount() const { return got; }
    void close() { if( h < 0 ) { setstate( ios_base::failbit ); return; } h = -1; ++vc_fs().closed; }
};
}
#define ostream  vc_ostream
#define istream  vc_istream
#define ofstream vc_ofstream
#define ifstream vc_ifstream
#define ostream_iterator vc_ostream_iterator
#define endl     vc_endl
#define flush    vc_flush
#define cout     vc_cout()
#define cerr     vc_cout()
#endif

// C25: builds containers from, and writes them as, a plain text for the Ruby harness
#include "GenericContainer/GenericContainer.hh"
#include <cstring>
#include <sstream>
#include <string>
using namespace GC_namespace; using namespace std;
static string hex( void const * p, size_t n ) { static char const d[] = "0123456789abcdef"; string s; for ( size_t i = 0; i < n; ++i ) { unsigned char c = static_cast<unsigned char const *>(p)[i]; s += d[c>>4]; s += d[c&15]; } return s; }
static string hs( string const & s ) { return "x"+hex(s.data(),s.size()); }
static string hd( double v ) { uint64_t u; memcpy(&u,&v,8); if ( v != v ) u = 0x7ff8000000000000ull; unsigned char b[8]; for ( int i = 0; i < 8; ++i ) b[i] = (unsigned char)(u>>(8*(7-i))); return hex(b,8); }
static void show( GenericContainer const & g, string & o ) {
  auto n = [&]( auto const & v, char const * k, auto f ) { o += string(k)+" "+to_string(v.size()); for ( size_t i = 0; i < v.size(); ++i ) o += " "+f(v[i]); };
  auto it = []( auto v ) { return to_string(v); }; auto re = []( double v ) { return hd(v); }; auto cx = []( complex_type v ) { return hd(v.real())+" "+hd(v.imag()); };
  switch ( g.get_type() ) {
  case GC_type::NOTYPE: o += "N"; break;
  case GC_type::BOOL: o += g.get_bool() ? "B 1" : "B 0"; break;
  case GC_type::INTEGER: o += "I "+to_string(g.get_int()); break;
  case GC_type::LONG: o += "L "+to_string(g.get_long()); break;
  case GC_type::REAL: o += "R "+hd(g.get_real()); break;
  case GC_type::COMPLEX: o += "C "+cx(g.get_complex()); break;
  case GC_type::STRING: o += "S "+hs(string(g.get_string())); break;
  case GC_type::VEC_BOOL: n(g.get_vec_bool(),"VB",[]( bool b ) { return string( b ? "1" : "0" ); }); break;
  case GC_type::VEC_INTEGER: n(g.get_vec_int(),"VI",it); break;
  case GC_type::VEC_LONG: n(g.get_vec_long(),"VL",it); break;
  case GC_type::VEC_REAL: n(g.get_vec_real(),"VR",re); break;
  case GC_type::VEC_COMPLEX: n(g.get_vec_complex(),"VC",cx); break;
  case GC_type::VEC_STRING: n(g.get_vec_string(),"VS",hs); break;
  case GC_type::VECTOR: o += "V "+to_string(g.get_num_elements()); for ( auto const & e : g.get_vector() ) { o += " "; show(e,o); } break;
  case GC_type::MAP: o += "M "+to_string(g.get_num_elements()); for ( auto const & e : g.get_map() ) { o += " "+hs(e.first)+" "; show(e.second,o); } break;
  default: o += "?"+string(g.get_type_name()); }
}
static string unhex( string const & t ) { string s; for ( size_t i = 1; i+1 < t.size(); i += 2 ) s += char(stoi(t.substr(i,2),nullptr,16)); return s; }
static double und( string const & t ) { uint64_t u = stoull(t,nullptr,16); double d; memcpy(&d,&u,8); return d; }
static void make( istream & s, GenericContainer & g ) {
  string k, t; s >> k; long n = 0, m = 0; auto word = [&]() { s >> t; return t; };
  if ( k == "N" ) g.clear(); else if ( k == "B" ) { s >> n; g.set_bool(n != 0); } else if ( k == "I" ) { s >> n; g.set_int(int_type(n)); } else if ( k == "L" ) { s >> n; g.set_long(n); } else if ( k == "R" ) g.set_real(und(word())); else if ( k == "S" ) g.set_string(unhex(word()));
  else if ( k == "VB" ) { s >> n; auto & v = g.set_vec_bool(unsigned(n)); for ( long i = 0; i < n; ++i ) v[i] = word() == "1"; }
  else if ( k == "VI" ) { s >> n; auto & v = g.set_vec_int(unsigned(n)); for ( auto & x : v ) x = int_type(stol(word())); }
  else if ( k == "VR" ) { s >> n; auto & v = g.set_vec_real(unsigned(n)); for ( auto & x : v ) x = und(word()); }
  else if ( k == "VC" ) { s >> n; auto & v = g.set_vec_complex(unsigned(n)); for ( auto & x : v ) { double a = und(word()); x = complex_type(a,und(word())); } }
  else if ( k == "VS" ) { s >> n; auto & v = g.set_vec_string(unsigned(n)); for ( auto & x : v ) x = unhex(word()); }
  else if ( k == "MR" ) { s >> n >> m; auto & v = g.set_mat_real(unsigned(n),unsigned(m)); for ( long i = 0; i < n; ++i ) for ( long j = 0; j < m; ++j ) v.data()[i+j*n] = und(word()); } // given by rows
  else if ( k == "MC" ) { s >> n >> m; auto & v = g.set_mat_complex(unsigned(n),unsigned(m)); for ( long i = 0; i < n; ++i ) for ( long j = 0; j < m; ++j ) { double a = und(word()); v.data()[i+j*n] = complex_type(a,und(word())); } }
  else if ( k == "V" ) { s >> n; auto & v = g.set_vector(unsigned(n)); for ( auto & x : v ) make(s,x); }
  else if ( k == "M" ) { s >> n; g.set_map(); auto & p = g.get_map(); for ( long i = 0; i < n; ++i ) { string key = unhex(word()); make(s,p[key]); } }
}
extern "C" {
char const * gcx_show( void * p ) { static string s; s.clear(); show(*static_cast<GenericContainer*>(p),s); return s.c_str(); }
void gcx_make( void * p, char const * t ) { istringstream s(t); static_cast<GenericContainer*>(p)->clear(); make(s,*static_cast<GenericContainer*>(p)); }
}

// Reference conversions between numbers.
#pragma once
#include "views.hh"
#include <optional>
#include <limits>
#include <cfloat>
namespace pt {
enum class Cv { Yes, No, Any };  // must convert, must be refused, unspecified
inline bool subn( double d ) { return std::fpclassify(d) == FP_SUBNORMAL; }

template <class I> inline Cv to_integer( double d, I & out ) {
  if ( subn(d) ) return Cv::Any;
  if ( !std::isfinite(d) || d != std::floor(d) ) return Cv::No;
  if ( d < double(std::numeric_limits<I>::min()) || d >= std::ldexp(1.0,std::numeric_limits<I>::digits) ) return Cv::No;
  out = I(d); return Cv::Yes;
}
template <class I> inline Cv conv( MV const & a, I & out ) {
  static_assert( std::is_integral<I>::value, "" );
  auto fromint = [&]( int64_t x ) { if ( ( x < 0 && !std::is_signed<I>::value ) || ( sizeof(I) == 4 && ( x < int64_t(std::numeric_limits<I>::min()) || x > int64_t(std::numeric_limits<I>::max()) ) ) ) return Cv::No; out = I(x); return Cv::Yes; };
  switch ( a.k ) {
  case K::Bool: out = a.b; return Cv::Yes;
  case K::Int: return fromint(a.i);
  case K::Long: return fromint(a.l);
  case K::Real: return to_integer(a.r,out);
  case K::Cplx: if ( subn(a.c.imag()) ) return Cv::Any; if ( a.c.imag() != 0 ) return Cv::No; return to_integer(a.c.real(),out);
  default: return Cv::No;
  }
}
inline Cv conv( MV const & a, double & out ) {
  switch ( a.k ) {
  case K::Bool: case K::Int: case K::Long: case K::Real: out = num(a); return Cv::Yes;
  case K::Cplx: if ( subn(a.c.imag()) ) return Cv::Any; if ( !(a.c.imag() == 0) ) return Cv::No; out = a.c.real(); return Cv::Yes;
  default: return Cv::No;
  }
}
inline Cv conv( MV const & a, float & out ) {
  double d; 
  if ( a.k == K::Int ) { out = float(a.i); return Cv::Yes; }
  if ( a.k == K::Long ) { out = float(a.l); return Cv::Yes; }
  Cv r = conv(a,d); if ( r != Cv::Yes ) return r;
  if ( std::isfinite(d) && std::fabs(d) > FLT_MAX ) return Cv::Any;
  out = float(d); return Cv::Yes;
}
inline Cv conv( MV const & a, cplx & out ) {
  switch ( a.k ) {
  case K::Bool: case K::Int: case K::Long: case K::Real: out = cplx(num(a),0); return Cv::Yes;
  case K::Cplx: out = a.c; return Cv::Yes;
  default: return Cv::No;
  }
}
// the elements of a numeric vector, matrix or list, or of a scalar, as scalars
inline bool elements( MV const & a, std::vector<MV> & e ) {
  switch ( a.k ) {
  case K::Bool: case K::Int: case K::Long: case K::Real: case K::Cplx: e.push_back(a); return true;
  case K::VBool: for ( bool x : a.vb ) e.push_back(MV::Bool(x)); return true;
  case K::VInt: case K::MInt: for ( auto x : a.vi ) e.push_back(MV::Int(x)); return true;
  case K::VLong: case K::MLong: for ( auto x : a.vl ) e.push_back(MV::Long(x)); return true;
  case K::VReal: case K::MReal: for ( auto x : a.vr ) e.push_back(MV::Real(x)); return true;
  case K::VCplx: case K::MCplx: for ( auto x : a.vc ) e.push_back(MV::Cplx(x)); return true;
  case K::Vec: e = a.v; return true;
  default: return false;
  }
}
inline bool eqv( double a, double b ) { return same_double(a,b); }
inline bool eqv( float a, float b ) { return a == b || ( a != a && b != b ); }
inline bool eqv( cplx a, cplx b ) { return cx_same(a,b); }
template <class I, class = std::enable_if_t<std::is_integral<I>::value>> inline bool eqv( I a, I b ) { return a == b; }
// numbers near the borders of the integer types
inline MV gen_number( Src & g ) {
  static const std::vector<int64_t> edge = { 0, 1, -1, 0x7FFFFFFFLL, 0x80000000LL, 0xFFFFFFFFLL, 0x100000000LL, -0x7FFFFFFFLL, -0x80000000LL, -0x80000001LL, (1LL<<53), (1LL<<53)+1, INT64_MAX, INT64_MIN, INT64_MAX-511 };
  static const std::vector<double> redge = { 0.0, 0.5, -0.5, 1.5, 2147483647.0, 2147483648.0, 2147483647.5, 4294967295.0, 4294967296.0, -2147483648.0, -2147483649.0, -1.0, 9223372036854775808.0, 9223372036854774784.0, -9223372036854775808.0, -9223372036854777856.0, 18446744073709551616.0, 18446744073709549568.0, 1e300, -1e300, 1e-300, 1e-9, 4503599627370495.5, INFINITY, -INFINITY, NAN };
  GenOpt o;
  auto real = [&]{ switch ( g.below(4) ) { case 0: return g.pick(redge); case 1: return double(g.pick(edge)) + ( g.coin() ? 0.5 : 0.0 ); case 2: return double(g.range(-20,20)); default: return gen_double(g,o); } };
  switch ( g.below(5) ) {
  case 0: return MV::Bool(g.coin());
  case 1: return MV::Int(gen_i32(g));
  case 2: { int64_t x = g.coin() ? g.pick(edge) : gen_i64(g); return MV::Long(x); }
  case 3: return MV::Real(real());
  default: return MV::Cplx(cplx(real(), g.chance(3,4) ? ( g.coin() ? 0.0 : -0.0 ) : real()));
  }
}
} // namespace pt

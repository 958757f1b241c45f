// Reference value type, independent of the library, with generators, builders and readers.
#pragma once
#include "core.hh"
#include "GenericContainer/GenericContainer.hh"
#include <complex>
#include <cmath>
#include <sstream>

namespace pt {

using GC_namespace::GenericContainer;
using GC = GenericContainer;
using T  = GC_namespace::GC_type;
using cplx = std::complex<double>;

enum class K { None, Ptr, Bool, Int, Long, Real, Cplx, Str, VPtr, VBool, VInt, VLong, VReal, VCplx, VStr, MInt, MLong, MReal, MCplx, Vec, Map };
constexpr int NKIND = 21;
T to_gct( K k );
K from_gct( T t );
char const * kname( K k );

struct MV {
  K k{K::None};
  void * p{nullptr}; bool b{false}; int32_t i{0}; int64_t l{0}; double r{0}; cplx c{0}; std::string s;
  std::vector<void*> vp; std::vector<bool> vb; std::vector<int32_t> vi; std::vector<int64_t> vl;
  std::vector<double> vr; std::vector<cplx> vc; std::vector<std::string> vs;   // also the matrices, column by column
  unsigned nr{0}, nc{0};
  std::vector<MV> v;
  std::map<std::string,MV> m;
  MV() = default;
  explicit MV( K kk ) : k(kk) {}
  static MV Int( int32_t x ) { MV r(K::Int); r.i = x; return r; }
  static MV Long( int64_t x ) { MV r(K::Long); r.l = x; return r; }
  static MV Real( double x ) { MV r(K::Real); r.r = x; return r; }
  static MV Cplx( cplx x ) { MV r(K::Cplx); r.c = x; return r; }
  static MV Str( std::string x ) { MV r(K::Str); r.s = std::move(x); return r; }
  static MV Bool( bool x ) { MV r(K::Bool); r.b = x; return r; }
  static MV Ptr( void * x ) { MV r(K::Ptr); r.p = x; return r; }
  size_t count() const; // element count of the lists, maps and matrices; 1 for scalars, 0 for none
};

bool same_double( double a, double b );              // bit equality, any NaN equal to any NaN
bool same( MV const & a, MV const & b );
std::string diff( MV const & a, MV const & b, std::string const & at = "$" ); // "" when same
std::string show( MV const & a );
size_t nodes( MV const & a );
size_t depth( MV const & a );

// ---- generators ----
struct GenOpt {
  int      max_depth{3};
  int      max_len{5};
  uint32_t kinds{0x1FFFFF};                // bit per K
  enum class Str { Plain, Ascii, Text, Bytes, BytesNoNul } str{Str::Bytes}, key{Str::BytesNoNul};
  bool     nonfinite{true};
  bool     negzero{true};
  bool     nonempty{false};                // no empty lists, maps, matrices
  unsigned big{250};                       // one value in so many is much larger or deeper than the others; 0: none
  int      big_len{3000}, big_depth{120};
  unsigned huge{12};                       // one large value in so many is beyond 16 bits (lists and maps: beyond 8); 0: none
  bool     long_keys{true};
  bool     empty_mat{true};                // matrices with zero rows or columns
  GenOpt & without( std::initializer_list<K> ks ) { for ( auto k : ks ) kinds &= ~(1u<<int(k)); return *this; }
  GenOpt & only( std::initializer_list<K> ks ) { kinds = 0; for ( auto k : ks ) kinds |= 1u<<int(k); return *this; }
  bool has( K k ) const { return kinds>>int(k)&1; }
};
int32_t     gen_i32( Src & g );
int64_t     gen_i64( Src & g );
double      gen_double( Src & g, GenOpt const & o );
std::string gen_string( Src & g, GenOpt::Str mode, int max_len = 12 );
void *      gen_ptr( Src & g );
MV          gen( Src & g, GenOpt const & o, int d = 0 );
MV          gen_kind( Src & g, K k, GenOpt const & o, int d = 0 );
MV          mutate( Src & g, MV const & a, GenOpt const & o ); // a value that differs from a in one place
MV          twin( Src & g, MV const & a );  // a value as close to a as can be: one bit or byte of one leaf, the sign of a zero, a shape

// ---- library side ----
void build( GC & gc, MV const & a );              // plain typed setters
void build_varied( Src & g, GC & gc, MV const & a ); // any of the equivalent ways of storing a
MV   read( GC const & gc );                       // through the const accessors
MV   read_checked( GC const & gc, std::string const & what ); // Fail rather than exception

// f() must throw a std::exception; returns false when it returned normally
template <class F> bool throws( F && f ) {
  try { f(); } catch ( std::exception const & ) { return true; }
  return false;
}

struct RawVecs; 

} // namespace pt

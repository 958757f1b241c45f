// C08: YAML output read back gives the stored value.
#include "json_ref.hh"
#include "quiet.hh"
#include "GenericContainer/GenericContainerInterface_yaml.hh"
namespace pt {
static int prec; static bool over; // a number rounded up beyond the largest double
static std::string rtext( double r, int p ) { char b[64]; snprintf(b,sizeof b,"%.*g",p,r); return b; }
static MV real_value( double r ) { if ( !std::isfinite(r) ) return MV::Real(r); MV v = json_num(rtext(r,prec)); if ( v.k == K::Real && !std::isfinite(v.r) ) over = true; return v; }
static MV cplx_value( cplx c ) {
  std::string s = rtext(c.real(),12);
  if ( c.imag() > 0 ) s += "+"+rtext(c.imag(),12)+"i"; else if ( c.imag() < 0 ) s += "-"+rtext(-c.imag(),12)+"i"; else { MV v = json_num(s); if ( v.k == K::Real && !std::isfinite(v.r) ) over = true; return v; }
  return MV::Str(s);
}
static MV ptr_value( void * p ) { uint64_t u = reinterpret_cast<uintptr_t>(p); return u <= INT32_MAX ? MV::Int(int32_t(u)) : MV::Long(int64_t(u)); }
static MV expected( MV const & a ) { // before unification
  auto list = []( auto const & v, auto f ) { MV r(K::Vec); for ( auto const & x : v ) r.v.push_back(f(x)); return r; };
  auto mat = [&]( auto const & v, auto f ) { MV r(K::Vec); for ( unsigned j = 0; j < a.nc; ++j ) { MV c(K::Vec); for ( unsigned i = 0; i < a.nr; ++i ) c.v.push_back(f(v[size_t(j)*a.nr+i])); r.v.push_back(c); } return r; };
  auto in = []( int64_t v ) { return v >= INT32_MIN && v <= INT32_MAX ? MV::Int(int32_t(v)) : MV::Long(v); };
  auto st = []( std::string const & s ) { return MV::Str(s); };
  auto bo = []( bool b ) { return MV::Bool(b); };
  switch ( a.k ) {
  case K::None: case K::Bool: case K::Str: return a;
  case K::Ptr: return ptr_value(a.p);
  case K::Int: return in(a.i); case K::Long: return in(a.l); case K::Real: return real_value(a.r); case K::Cplx: return cplx_value(a.c);
  case K::VPtr: return list(a.vp,ptr_value); case K::VBool: return list(a.vb,bo); case K::VInt: return list(a.vi,in); case K::VLong: return list(a.vl,in);
  case K::VReal: return list(a.vr,real_value); case K::VCplx: return list(a.vc,cplx_value); case K::VStr: return list(a.vs,st);
  case K::MInt: return mat(a.vi,in); case K::MLong: return mat(a.vl,in); case K::MReal: return mat(a.vr,real_value); case K::MCplx: return mat(a.vc,cplx_value);
  case K::Vec: return list(a.v,expected);
  default: { MV r(K::Map); for ( auto const & x : a.m ) r.m[x.first] = expected(x.second); return r; }
  }
}
// addresses beyond the range of long and non-finite complex numbers are left out
static void tame( MV & a ) {
  auto f = []( void *& p ) { p = reinterpret_cast<void*>(reinterpret_cast<uintptr_t>(p) & uintptr_t(INT64_MAX)); };
  auto z = []( cplx & x ) { x = cplx( std::isfinite(x.real()) ? x.real() : 1.5, std::isfinite(x.imag()) ? x.imag() : 2.5 ); };
  z(a.c); for ( auto & x : a.vc ) z(x);
  f(a.p); for ( auto & x : a.vp ) f(x); for ( auto & x : a.v ) tame(x); for ( auto & x : a.m ) tame(x.second);
}
static void one( Src & g, Ctx & c ) {
  GenOpt o; o.max_depth = g.range(0,3); o.str = o.key = GenOpt::Str::Text; 
  MV a = gen(g,o); tame(a);
  if ( g.chance(1,10) ) for ( int n = g.range(1,20); n-- > 0; ) { MV q( g.coin() ? K::Vec : K::Map ); if ( q.k == K::Vec ) { if ( g.chance(1,4) ) q.v.push_back(MV::Int(1)); q.v.push_back(a); } else q.m["k"] = a; a = q; }
  c.log("value "+show(a)); c.label(std::string("kind ")+kname(a.k));
  c.nontrivial = nodes(a) > 1 || a.count() > 1 || a.k == K::Str || a.k == K::Real || a.k == K::Cplx;
  GC gc; build(gc,a);
  static int const ps[] = { 17, 17, 6, 10, 15, 1, 3 };
  prec = g.pick(ps);
  std::ostringstream os; os.precision(prec); auto fl = os.flags(); char fi = os.fill();
  std::string prefix; if ( g.coin() ) prefix = std::string(g.below(6),' ');
  bool wrap = g.chance(1,8); int const prec0 = prec;
  try { if ( wrap ) { if ( g.coin() ) GC_namespace::GC_to_YAML(gc,os); else { std::string r = "old"; GC_namespace::GC_to_YAML(gc,r); os << r; prec = int(std::ostringstream().precision()); } } else gc.to_yaml(os,prefix); } catch ( std::exception const & e ) { fail(std::string("to_yaml throws ")+e.what()); }
  std::string t = os.str();
  c.check( os.good() && os.flags() == fl && os.precision() == prec0 && os.fill() == fi && os.width() == 0, "to_yaml changed the format flags of the stream" );
  c.log("precision "+std::to_string(prec)+" text "+quote(t.substr(0,600)));
  c.check( same(a,read_checked(gc,"after to_yaml")), "to_yaml changed the container" );
  over = false; MV raw = expected(a);
  if ( over ) { c.label("rounded beyond double"); c.nontrivial = false; return; }
  GC b; if ( g.coin() ) { b["old"] = 1; }
  std::string head; if ( g.chance(1,4) ) { head = "header: \"of another\" kind\n"; c.label("stream not at its beginning"); }
  std::istringstream is(head+t); is.ignore(std::streamsize(head.size())); bool ok;
  try { ok = g.chance(7,8) ? b.from_yaml(is) : g.coin() ? GC_namespace::YAML_to_GC(is,b) : GC_namespace::YAML_to_GC(t,b); } catch ( std::exception const & e ) { fail(std::string("from_yaml of the output of to_yaml throws ")+e.what()); }
  c.check( ok, "from_yaml refuses the output of to_yaml "+quote(t.substr(0,300)) );
  std::string d = unified_diff(raw,read_checked(b,"from_yaml"));
  c.check( d.empty(), "from_yaml of the output of to_yaml: "+d );
}
} // namespace pt
using namespace pt;
int main( int argc, char ** argv ) {
  Property p; p.id = "C08"; p.one = one; p.init = quiet;
  p.rule = "random trees of all 21 kinds (valid UTF-8 with control characters, quotes and YAML syntax in strings and keys, empty and deeply nested lists and maps, non-finite numbers) are written with random stream precision and prefix and read back. Non-trivial: not a single null, bool, integer or pointer.";
  return pt_main(argc,argv,p);
}

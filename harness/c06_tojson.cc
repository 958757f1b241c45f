// C06: to_json writes one valid JSON document that holds the value; reading it back gives the value.
#include "json_ref.hh"
#include "quiet.hh"
#include "GenericContainer/GenericContainerInterface_json.hh"
namespace pt {
static int prec;
static bool close12( double a, double b ) { if ( a == b ) return true; return std::fabs(a-b) <= 1e-11*std::fabs(a) || std::fabs(a-b) <= 1e-320; }
static bool real_text( std::string const & t, double r ) {
  double x = strtod(t.c_str(),nullptr);
  if ( x == r ) return true;
  char b[64]; snprintf(b,sizeof b,"%.*g",prec,r);
  return x == strtod(b,nullptr);
}
// "re", "re+imi" or "re-imi"
static bool cplx_text( std::string const & s, cplx c ) {
  char * e; double re = strtod(s.c_str(),&e), im = 0;
  if ( e == s.c_str() ) return false;
  if ( *e == '+' || *e == '-' ) { char * q = e; im = strtod(q,&e); if ( *e++ != 'i' ) return false; }
  return *e == 0 && close12(c.real(),re) && close12(c.imag(),im);
}
static void expect( bool ok, std::string const & at, std::string const & what ) { if ( !ok ) fail(at+": "+what); }
static void match( MV const & a, J const & j, std::string const & at ) {
  auto num = [&]( J const & x, std::string const & w, std::string const & v ) { expect(x.t == J::Num && x.s == v,w,"expected the number "+v+", the text has "+quote(x.s)); };
  auto real = [&]( J const & x, std::string const & w, double v ) { expect(x.t == J::Num && real_text(x.s,v),w,"expected the number "+fmt_double(v)+", the text has "+quote(x.s)); };
  auto cx = [&]( J const & x, std::string const & w, cplx v ) { expect(x.t == J::Str && cplx_text(x.s,v),w,"expected a string with the complex number ("+fmt_double(v.real())+","+fmt_double(v.imag())+"), the text has "+quote(x.s)); };
  auto ptr = [&]( J const & x, std::string const & w, void * v ) { expect(x.t == J::Str && strtoull(x.s.c_str(),nullptr,16) == reinterpret_cast<uintptr_t>(v),w,"expected a string with the address, the text has "+quote(x.s)); };
  auto boo = [&]( J const & x, std::string const & w, bool v ) { expect(x.t == ( v ? J::True : J::False ),w,"expected a boolean"); };
  auto str = [&]( J const & x, std::string const & w, std::string const & v ) { expect(x.t == J::Str && x.s == v,w,"expected the string "+quote(v)+", the text has "+quote(x.s)); };
  auto sub = [&]( size_t i ) { return at+"["+std::to_string(i)+"]"; };
  auto list = [&]( auto const & v, auto f ) { expect(j.t == J::Arr && j.a.size() == v.size(),at,"expected a list of "+std::to_string(v.size())); for ( size_t i = 0; i < v.size(); ++i ) f(j.a[i],sub(i),v[i]); };
  auto mat = [&]( auto const & v, auto f ) {
    expect(j.t == J::Arr && j.a.size() == a.nc,at,"expected a list of "+std::to_string(a.nc)+" columns");
    for ( unsigned k = 0; k < a.nc; ++k ) { expect(j.a[k].t == J::Arr && j.a[k].a.size() == a.nr,sub(k),"expected a column of "+std::to_string(a.nr)); for ( unsigned i = 0; i < a.nr; ++i ) f(j.a[k].a[i],sub(k)+"["+std::to_string(i)+"]",v[size_t(k)*a.nr+i]); } };
  auto s = []( auto x ) { return std::to_string(x); };
  switch ( a.k ) {
  case K::None: expect(j.t == J::Null,at,"expected null"); break;
  case K::Ptr: ptr(j,at,a.p); break; case K::Bool: boo(j,at,a.b); break;
  case K::Int: num(j,at,s(a.i)); break; case K::Long: num(j,at,s(a.l)); break;
  case K::Real: real(j,at,a.r); break; case K::Cplx: cx(j,at,a.c); break; case K::Str: str(j,at,a.s); break;
  case K::VPtr: list(a.vp,ptr); break; case K::VBool: list(a.vb,boo); break;
  case K::VInt: list(a.vi,[&]( J const & x, std::string const & w, int32_t v ){ num(x,w,s(v)); }); break;
  case K::VLong: list(a.vl,[&]( J const & x, std::string const & w, int64_t v ){ num(x,w,s(v)); }); break;
  case K::VReal: list(a.vr,real); break; case K::VCplx: list(a.vc,cx); break; case K::VStr: list(a.vs,str); break;
  case K::MInt: mat(a.vi,[&]( J const & x, std::string const & w, int32_t v ){ num(x,w,s(v)); }); break;
  case K::MLong: mat(a.vl,[&]( J const & x, std::string const & w, int64_t v ){ num(x,w,s(v)); }); break;
  case K::MReal: mat(a.vr,real); break; case K::MCplx: mat(a.vc,cx); break;
  case K::Vec: expect(j.t == J::Arr && j.a.size() == a.v.size(),at,"expected a list of "+s(a.v.size())); for ( size_t i = 0; i < a.v.size(); ++i ) match(a.v[i],j.a[i],sub(i)); break;
  case K::Map: expect(j.t == J::Obj && j.o.size() == a.m.size(),at,"expected an object with "+s(a.m.size())+" members");
    for ( auto const & x : j.o ) { auto it = a.m.find(x.first); expect(it != a.m.end(),at,"unexpected key "+quote(x.first)); match(it->second,x.second,at+"."+quote(x.first)); }
  }
}
static void one( Src & g, Ctx & c ) {
  GenOpt o; o.max_depth = g.range(0,3); o.str = o.key = GenOpt::Str::Text; o.nonfinite = false;
  MV a = gen(g,o);
  if ( a.k == K::Str && g.chance(1,4) ) a.s.insert(g.below(a.s.size()+1),1,'\0');
  if ( a.k == K::Map && g.chance(1,8) ) a.m[std::string("k\0",2)+char('a'+g.below(3))] = MV::Int(7);
  if ( g.chance(1,10) ) for ( int n = g.range(1,40); n-- > 0; ) { MV q( g.coin() ? K::Vec : K::Map ); if ( q.k == K::Vec ) { if ( g.chance(1,4) ) q.v.push_back(MV::Int(1)); q.v.push_back(a); } else q.m["k"] = a; a = q; }
  c.log("value "+show(a)); c.label(std::string("kind ")+kname(a.k));
  c.nontrivial = nodes(a) > 1 || a.count() > 1 || a.k == K::Str || a.k == K::Real || a.k == K::Cplx;
  GC gc; build(gc,a);
  static int const ps[] = { 17, 17, 6, 10, 15, 1, 3 };
  prec = g.pick(ps);
  int const prec0 = prec; std::ostringstream os; os.precision(prec); auto fl = os.flags(); char fi = os.fill();
  std::string prefix; if ( g.coin() ) prefix = std::string(g.below(6),g.coin() ? ' ' : '\t');
  bool wrap = g.chance(1,8);
  try { if ( wrap ) { if ( g.coin() ) GC_namespace::GC_to_JSON(gc,os); else { std::string r = "old"; GC_namespace::GC_to_JSON(gc,r); os << r; prec = int(std::ostringstream().precision()); } } else gc.to_json(os,prefix); } catch ( std::exception const & e ) { fail(std::string("to_json throws ")+e.what()); }
  std::string t = os.str();
  c.check( os.good() && os.flags() == fl && os.precision() == prec0 && os.fill() == fi && os.width() == 0, "to_json changed the format flags of the stream" );
  c.log("precision "+std::to_string(prec)+" text "+quote(t.substr(0,400)));
  c.check( same(a,read_checked(gc,"after to_json")), "to_json changed the container" );
  J j; JParse P(t,false);
  c.check( P.run(j), "to_json of "+show(a)+" is not valid JSON, near offset "+std::to_string(P.where())+" of "+quote(t.substr(0,300)) );
  ++c.evals; match(a,j,"$");
  if ( P.fl.any() ) { c.label("outside of the common range of readers"); return; }
  MV raw = json_value(j);
  for ( int w = 0; w < 2; ++w ) {
    GC b; if ( g.coin() ) { b["old"] = 1; }
    std::istringstream is(t); bool ok;
    char const * nm = w ? "from_json2" : "from_json";
    try { ok = w ? b.from_json2(is) : b.from_json(is); } catch ( std::exception const & e ) { fail(std::string(nm)+" of the output of to_json throws "+e.what()); }
    c.check( ok, std::string(nm)+" refuses the output of to_json "+quote(t.substr(0,300)) );
    std::string d = unified_diff(raw,read_checked(b,nm));
    c.check( d.empty(), std::string(nm)+" of the output of to_json: "+d );
  }
}
} // namespace pt
using namespace pt;
int main( int argc, char ** argv ) {
  Property p; p.id = "C06"; p.one = one; p.init = quiet;
  p.rule = "random trees of all 21 kinds (finite numbers, valid UTF-8 with control characters, quotes and NUL in strings and keys, empty and deeply nested lists and maps) are written with random stream precision and prefix; the text is read by our own strict JSON parser and compared node by node with the value, then by both readers of the library. Non-trivial: not a single null, bool, integer or pointer.";
  return pt_main(argc,argv,p);
}

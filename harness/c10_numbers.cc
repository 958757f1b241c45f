// C10: a number comes back exactly, in any requested numeric type that can hold it, and is refused otherwise.
#include "numconv.hh"
namespace pt {
using namespace GC_namespace;

template <class X, class F> static void chk( Ctx & c, std::string const & what, MV const & a, F && get ) {
  X want{}; Cv r = conv(a,want);
  X got{}; bool threw = false; std::string msg;
  try { got = get(); } catch ( std::exception const & e ) { threw = true; msg = e.what(); }
  ++c.evals;
  if ( r == Cv::Any ) return;
  if ( r == Cv::No && !threw ) { std::ostringstream s; s.precision(20); s << got; fail(what+" of "+show(a)+" returns "+s.str()+", must be refused"); }
  if ( r == Cv::Yes && threw ) fail(what+" of "+show(a)+" throws "+msg);
  if ( r == Cv::Yes && !eqv(want,got) ) { std::ostringstream s; s.precision(20); s << got; fail(what+" of "+show(a)+" returns "+s.str()); }
}
template <class X> static void opt( Ctx & c, std::string const & what, GC const & m, std::string const & key, MV const & a, bool present, X mark, bool list ) {
  X want{}; Cv r = present ? conv(a,want) : Cv::No;
  X v = mark; bool ok;
  try { ok = list ? m.get_if_exists(vec_string_type{"\x01nokey",key},v) : m.get_if_exists(key,v); } catch ( std::exception const & e ) { fail(what+" throws "+std::string(e.what())); }
  ++c.evals;
  if ( r == Cv::Any ) return;
  if ( ok != ( r == Cv::Yes ) ) fail(what+" of "+show(a)+" returns "+(ok?"true":"false"));
  if ( ok ? !eqv(want,v) : !eqv(mark,v) ) fail(what+" of "+show(a)+(ok?" gives another number":" fails but writes the result"));
}
template <class X, class F> static void vec( Ctx & c, std::string const & what, MV const & a, F && get, bool complex_in_list ) {
  std::vector<MV> e; bool numeric = elements(a,e);
  std::vector<X> got{X(1),X(2),X(3)}; bool threw = false; std::string msg;
  try { get(got); } catch ( std::exception const & ex ) { threw = true; msg = ex.what(); }
  ++c.evals;
  if ( !numeric ) { if ( a.count() && !threw ) fail(what+" of "+show(a)+" is accepted"); return; }
  std::vector<X> want; bool no = false, any = false;
  for ( auto const & x : e ) {
    X w{}; Cv r = conv(x,w);
    if ( a.k == K::Vec && x.k == K::Cplx && !complex_in_list && r == Cv::Yes ) r = Cv::Any;
    if ( r == Cv::No ) no = true; else if ( r == Cv::Any ) any = true;
    want.push_back(w);
  }
  if ( no ) { c.check( threw, what+" of "+show(a)+" is accepted" ); return; }
  if ( any ) return;
  c.check( !threw, what+" of "+show(a)+" throws "+msg );
  bool ok = got.size() == want.size();
  for ( size_t i = 0; ok && i < want.size(); ++i ) ok = eqv(want[i],got[i]);
  c.check( ok, what+" of "+show(a)+" gives other numbers" );
}

static MV gen_any( Src & g ) {
  GenOpt o; o.max_depth = 1; o.max_len = 4;
  auto list = [&]( K k ) {
    MV a(k); unsigned n = unsigned(g.few(0,4)); if ( k == K::MInt || k == K::MLong || k == K::MReal || k == K::MCplx ) { a.nr = unsigned(g.below(4)); a.nc = unsigned(g.below(4)); n = a.nr*a.nc; }
    for ( unsigned i = 0; i < n; ++i ) {
      MV x = gen_number(g); double d = 0; (void)conv(x,d); if ( x.k == K::Cplx ) d = x.c.real();
      switch ( k ) { case K::VBool: a.vb.push_back(g.coin()); break;
      case K::VInt: case K::MInt: a.vi.push_back( x.k == K::Int ? x.i : gen_i32(g) ); break;
      case K::VLong: case K::MLong: a.vl.push_back( x.k == K::Long ? x.l : gen_i64(g) ); break;
      case K::VReal: case K::MReal: a.vr.push_back( g.coin() ? double(g.range(-3,9)) : d ); break;
      case K::VCplx: case K::MCplx: a.vc.push_back( x.k == K::Cplx ? x.c : cplx(d,0) ); break;
      default: a.v.push_back(g.chance(9,10) ? x : gen(g,o,1)); }
    }
    return a;
  };
  switch ( g.below(4) ) {
  case 0: case 1: return gen_number(g);
  case 2: return list(g.pick(std::vector<K>{K::VBool,K::VInt,K::VLong,K::VReal,K::VCplx,K::MInt,K::MLong,K::MReal,K::MCplx,K::Vec,K::Vec}));
  default: return gen(g,o);
  }
}

static void one( Src & g, Ctx & c ) {
  MV a = gen_any(g);
  GC gc; build_varied(g,gc,a); GC const & k = gc;
  c.log("value "+show(a)); c.label(std::string("kind ")+kname(a.k));
  c.nontrivial = is_num(a.k) || a.k == K::Cplx || a.count() > 0;
  chk<int32_t>(c,"get_value<int>",a,[&]{ int32_t v{}; k.get_value(v,"w"); return v; });
  chk<uint32_t>(c,"get_value<uint>",a,[&]{ uint32_t v{}; k.get_value(v,"w"); return v; });
  chk<int64_t>(c,"get_value<long>",a,[&]{ int64_t v{}; k.get_value(v,"w"); return v; });
  chk<uint64_t>(c,"get_value<ulong>",a,[&]{ uint64_t v{}; k.get_value(v,"w"); return v; });
  chk<double>(c,"get_value<double>",a,[&]{ double v{}; k.get_value(v,"w"); return v; });
  chk<float>(c,"get_value<float>",a,[&]{ float v{}; k.get_value(v,"w"); return v; });
  chk<int32_t>(c,"get_as_int",a,[&]{ return k.get_as_int("w"); });
  chk<uint32_t>(c,"get_as_uint",a,[&]{ return k.get_as_uint("w"); });
  chk<int64_t>(c,"get_as_long",a,[&]{ return k.get_as_long("w"); });
  chk<uint64_t>(c,"get_as_ulong",a,[&]{ return k.get_as_ulong("w"); });
  if ( a.k != K::Cplx ) chk<double>(c,"get_number",a,[&]{ return k.get_number("w"); });
  chk<cplx>(c,"get_complex_number",a,[&]{ return k.get_complex_number("w"); });
  chk<cplx>(c,"get_complex_number(re,im)",a,[&]{ double x, y; k.get_complex_number(x,y); return cplx(x,y); });
  vec<int32_t>(c,"copyto_vec_int",a,[&]( auto & v ) { k.copyto_vec_int(v,"w"); },true);
  vec<uint32_t>(c,"copyto_vec_uint",a,[&]( auto & v ) { k.copyto_vec_uint(v,"w"); },true);
  vec<int64_t>(c,"copyto_vec_long",a,[&]( auto & v ) { k.copyto_vec_long(v,"w"); },true);
  vec<uint64_t>(c,"copyto_vec_ulong",a,[&]( auto & v ) { k.copyto_vec_ulong(v,"w"); },true);
  vec<double>(c,"copyto_vec_real",a,[&]( auto & v ) { k.copyto_vec_real(v,"w"); },false);
  vec<cplx>(c,"copyto_vec_complex",a,[&]( auto & v ) { k.copyto_vec_complex(v,"w"); },true);
  { // strings
    std::vector<std::string> got{"x","y"}; bool threw = throws([&]{ k.copyto_vec_string(got,"w"); });
    std::vector<std::string> want; bool ok = true;
    if ( a.k == K::Str ) want.push_back(a.s); else if ( a.k == K::VStr ) want = a.vs;
    else if ( a.k == K::Vec ) { for ( auto const & x : a.v ) if ( x.k == K::Str ) want.push_back(x.s); else ok = false; }
    else ok = false;
    if ( ok ) c.check( !threw && got == want, "copyto_vec_string of "+show(a) );
    else if ( a.count() ) c.check( threw, "copyto_vec_string of "+show(a)+" is accepted" );
  }
  // through a map
  GC m; std::string key = gen_string(g,GenOpt::Str::Bytes,5); bool present = g.chance(7,8);
  m.set_map(); m["other"] = 1; if ( present ) m[key] = gc; else { m[key+"x"] = gc; if ( key == "other" ) key += "y"; }
  bool list = g.coin(); GC const & cm = m;
  opt<int32_t>(c,"get_if_exists<int>",cm,key,a,present,77,list);
  opt<uint32_t>(c,"get_if_exists<uint>",cm,key,a,present,77,list);
  opt<int64_t>(c,"get_if_exists<long>",cm,key,a,present,77,list);
  opt<uint64_t>(c,"get_if_exists<ulong>",cm,key,a,present,77,list);
  opt<double>(c,"get_if_exists<real>",cm,key,a,present,77.25,list);
  opt<cplx>(c,"get_if_exists<complex>",cm,key,a,present,cplx(7,8),list);
  if ( present ) {
    chk<int32_t>(c,"get_map_int",a,[&]{ return cm.get_map_int(key,"w"); });
    if ( a.k != K::Cplx ) chk<double>(c,"get_map_number",a,[&]{ return list ? cm.get_map_number(vec_string_type{"\x01nokey",key},"w") : cm.get_map_number(key,"w"); });
  }
  std::string d = diff(a,read_checked(gc,"after conversions"));
  c.check( d.empty(), "conversions changed the container: "+d );
}
} // namespace pt
using namespace pt;
int main( int argc, char ** argv ) {
  Property p; p.id = "C10"; p.one = one;
  p.rule = "scalars concentrated at the borders of the 32 and 64 bit signed and unsigned ranges, fractional, non-finite and complex numbers, and vectors, matrices and lists of them (plus values that are no numbers) are read as each numeric type by every converting accessor; the model converts exactly or refuses. Subnormal numbers to integers, complex with zero imaginary part inside a list to real, and doubles beyond float range are left unspecified. Non-trivial: a number or a non-empty value.";
  return pt_main(argc,argv,p);
}

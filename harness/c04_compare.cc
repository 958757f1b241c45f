// C04: compare_content reports nothing exactly when the two containers hold the same content.
#include "tree.hh"
namespace pt {
// equality as C++ sees it: NaN differs from everything, -0 equals 0
static bool has_nan( MV const & a ) {
  auto n = []( double d ) { return std::isnan(d); };
  if ( a.k == K::Real && n(a.r) ) return true;
  if ( a.k == K::Cplx && ( n(a.c.real()) || n(a.c.imag()) ) ) return true;
  for ( double d : a.vr ) if ( n(d) ) return true;
  for ( auto const & z : a.vc ) if ( n(z.real()) || n(z.imag()) ) return true;
  for ( auto const & x : a.v ) if ( has_nan(x) ) return true;
  for ( auto const & x : a.m ) if ( has_nan(x.second) ) return true;
  return false;
}
static void no_negzero( MV & a ) {
  auto f = []( double & d ) { if ( d == 0 ) d = 0.0; };
  auto z = [&]( cplx & w ) { double p = w.real(), q = w.imag(); f(p); f(q); w = cplx(p,q); };
  f(a.r); z(a.c);
  for ( auto & d : a.vr ) f(d);
  for ( auto & w : a.vc ) z(w);
  for ( auto & x : a.v ) no_negzero(x);
  for ( auto & x : a.m ) no_negzero(x.second);
}
static void one( Src & g, Ctx & c ) {
  GenOpt o; o.max_depth = g.range(0,3); o.negzero = false; o.key = GenOpt::Str::Bytes; o.nonempty = g.coin();
  MV a = gen(g,o);
  GC x, y; build_varied(g,x,a); build_varied(g,y,a);
  std::string from = g.coin() ? "" : "prefix ";
  c.log("a "+show(a)); c.label(std::string("kind ")+kname(a.k));
  bool nan = has_nan(a);
  std::string r = x.compare_content(y,from), rr = y.compare_content(x,from);
  if ( !nan ) { c.check( r.empty() && rr.empty(), "equal contents reported as different: "+r+rr ); c.check( x.compare_content(x).empty(), "a container differs from itself" ); }
  // one difference somewhere
  MV b = a; Path p = gen_path(g,a,4); MV & spot = at(b,p);
  GenOpt q = o; q.max_depth = 1;
  if ( g.coin() ) { MV w = twin(g,spot); no_negzero(w); spot = same(w,spot) ? mutate(g,spot,q) : w; }
  else spot = mutate(g,spot,q);
  if ( same(a,b) ) return;
  c.log("b "+show(b)+" changed at "+show(p)); c.label("depth "+std::to_string(p.size()));
  GC z; build_varied(g,z,b);
  r = x.compare_content(z,from); rr = z.compare_content(x,from);
  c.nontrivial = true;
  c.check( !r.empty() && !rr.empty(), "difference not reported: "+diff(a,b) );
  // an unrelated value
  MV d = gen(g,o);
  if ( !has_nan(d) && !nan ) {
    GC w; build_varied(g,w,d); c.log("d "+show(d));
    c.check( x.compare_content(w).empty() == same(a,d), "unrelated values: "+diff(a,d) );
  }
  c.check( same(a,read_checked(x,"after comparing")) && same(b,read_checked(z,"after comparing")), "comparing changed a container" );
}
} // namespace pt
using namespace pt;
int main( int argc, char ** argv ) {
  Property p; p.id = "C04"; p.one = one;
  p.rule = "a random tree built twice in different ways (must compare equal unless it holds NaN), the same tree with one change at a random node, often of a single bit or byte (must compare different in both directions), and an unrelated tree; -0.0 is not generated. Non-trivial: a changed tree was compared.";
  return pt_main(argc,argv,p);
}

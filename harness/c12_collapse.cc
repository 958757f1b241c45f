// C12: unifying lists keeps every value and its position.
#include "collapse.hh"
#include "tree.hh"
namespace pt {
static MV list_of( Src & g, int d ) {
  GenOpt o; o.max_depth = 1; o.max_len = 3; o.key = GenOpt::Str::Bytes;
  MV a(K::Vec); unsigned n = unsigned(g.few(0,4)), m = unsigned(g.few(0,3)); int top = g.range(0,4);
  if ( n > 20 ) { m %= 9; d = std::min(d,1); } unsigned const odd = n > 20 ? 4*n : 0; // long lists: mostly of one shape
  auto sc = [&]{ int w = g.chance(1,8) ? g.range(0,4) : g.range(0,top); switch ( w ) { case 0: return MV::Bool(g.coin()); case 1: return MV::Int(gen_i32(g)); case 2: return MV::Long(gen_i64(g)); case 3: return MV::Real(gen_double(g,o)); default: return MV::Cplx(cplx(gen_double(g,o),gen_double(g,o))); } };
  unsigned shape = unsigned(g.below(d > 0 ? 6 : 3));
  for ( unsigned i = 0; i < n; ++i ) {
    if ( g.chance(1,odd ? odd : 12) ) { a.v.push_back(gen(g,o)); continue; }
    switch ( shape ) {
    case 0: a.v.push_back(sc()); break;
    case 1: a.v.push_back(MV::Str(gen_string(g,GenOpt::Str::Bytes,5))); break;
    case 2: a.v.push_back(gen(g,o)); break;
    case 3: { MV r(K::Vec); for ( unsigned j = 0; j < m; ++j ) r.v.push_back(sc()); if ( g.chance(1,odd ? odd : 10) ) r.v.push_back(sc()); a.v.push_back(r); break; }
    case 4: { int w = g.range(0,top); MV r(VK[w]); for ( unsigned j = 0; j < m; ++j ) { MV x = sc(); if ( swidth(x.k) > w ) x = zero(w); append(r,widen(x,w)); } a.v.push_back(r); break; }
    default: a.v.push_back(list_of(g,d-1));
    }
  }
  return a;
}
static void one( Src & g, Ctx & c ) {
  GenOpt o; o.max_depth = 3; o.key = GenOpt::Str::Bytes;
  MV a;
  switch ( g.below(4) ) {
  case 0: a = gen(g,o); break;
  case 1: { a = MV(K::Map); int n = g.range(1,3); for ( int i = 0; i < n; ++i ) a.m[gen_string(g,GenOpt::Str::Bytes,4)] = g.coin() ? list_of(g,2) : gen(g,o); break; }
  default: a = list_of(g,2);
  }
  c.log("value "+show(a));
  GC gc; build_varied(g,gc,a);
  try { gc.collapse(); } catch ( std::exception const & e ) { fail(std::string("collapse throws ")+e.what()); }
  MV got = read_checked(gc,"after collapse");
  MV w1 = collapse_model(a,true), w2 = collapse_model(a,false);
  std::string d = diff(w1,got);
  if ( !d.empty() && !same(w1,w2) ) d = diff(w2,got);
  c.check( d.empty(), "collapse of "+show(a)+": "+d );
  c.nontrivial = !same(a,got);
  c.label( c.nontrivial ? std::string("unified to ")+kname(got.k) : "left as is" );
  gc.collapse();
  d = diff(got,read_checked(gc,"after the second collapse"));
  if ( !d.empty() && !same(w1,w2) ) d = ""; // a list of one-element vectors and numbers
  c.check( d.empty(), "collapsing twice differs from once: "+d );
}
} // namespace pt
using namespace pt;
int main( int argc, char ** argv ) {
  Property p; p.id = "C12"; p.one = one;
  p.rule = "random trees and lists built to be unifiable (rows of equal length, mixed numeric widths, all strings) or nearly so are collapsed and compared with a reference unification; mixing one-element vectors and plain numbers may or may not unify. Non-trivial: collapse changed the value.";
  return pt_main(argc,argv,p);
}

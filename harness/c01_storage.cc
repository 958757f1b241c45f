// C01: whatever was stored last, by any of the ways of storing it, is what every accessor returns.
#include "views.hh"
namespace pt {

static void one( Src & g, Ctx & c ) {
  GC gc; MV last;
  int steps = g.range(1,4);
  for ( int s = 0; s < steps; ++s ) {
    GenOpt o; o.max_depth = g.range(0,3);
    MV a = s && g.chance(1,3) ? twin(g,last) : gen(g,o);
    c.log("store "+show(a));
    c.label(std::string("kind ")+kname(a.k));
    if ( s ) c.label("over earlier content");
    c.nontrivial = c.nontrivial || nodes(a) > 1 || a.count() > 1 || s > 0;
    try { build_varied(g,gc,a); } catch ( std::exception const & e ) { fail(std::string("storing throws: ")+e.what()); }
    std::string d;
    try {
      d = diff(a,read(gc));
      c.check( d.empty(), "stored value read back: "+d );
      views_tree(c,gc,a);
      views_mut_tree(c,gc,a);
    } catch ( std::exception const & e ) { fail(std::string("reading throws: ")+e.what()); }
    d = diff(a,read_checked(gc,"after reading"));
    c.check( d.empty(), "reading changed the value: "+d );
    // overwrite one element through the references handed out
    if ( a.k == K::Vec && !a.v.empty() && g.coin() ) {
      unsigned i = unsigned(g.below(a.v.size())); GenOpt p = o; p.max_depth = 1;
      MV b = gen(g,p); build_varied(g,gc(i),b); a.v[i] = b; c.log("element "+std::to_string(i)+" := "+show(b));
      d = diff(a,read_checked(gc,"element")); c.check( d.empty(), "one element replaced: "+d );
    }
    if ( a.k == K::Map && g.coin() ) {
      std::string k = !a.m.empty() && g.coin() ? std::next(a.m.begin(),long(g.below(a.m.size())))->first : gen_string(g,GenOpt::Str::Bytes,6);
      GenOpt p = o; p.max_depth = 1; MV b = gen(g,p); build_varied(g,gc[k],b); a.m[k] = b; c.log("key "+quote(k)+" := "+show(b));
      d = diff(a,read_checked(gc,"key")); c.check( d.empty(), "one key written: "+d );
      views_tree(c,gc,a);
    }
    last = a;
    if ( g.chance(1,8) ) { gc.clear(); c.check( gc.get_type() == T::NOTYPE && gc.get_num_elements() == 0, "clear leaves something" ); c.log("clear"); }
  }
}

static Property P{ "C01", "1-4 values in a row stored into one container, each of any of the 21 kinds, up to 3 levels deep, a third of them differing from the value before by as little as one bit, byte, shape or sign of a zero, each node by one of the equivalent ways of storing it (setters, assignments, constructors, in-place references, element by element, push); every accessor of the stored kind is then compared with the model. Non-trivial: more than one node or element, or stored over earlier content.",
  one, {}, 40000, 1000000 };
} // namespace pt
using namespace pt;
int main( int argc, char ** argv ) { P.leak_check = true; return pt_main(argc,argv,P); }

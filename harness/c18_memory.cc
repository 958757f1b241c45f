// C18: whatever is done to containers, everything they hold stays valid and is released exactly once.
#include "ops.hh"
#include "quiet.hh"
#include <new>
#include <cstdlib>
// requests no history of this size needs are refused, as on a machine with less memory
static void * take( std::size_t n ) { if ( n < (std::size_t(1)<<26) ) if ( void * p = std::malloc(n ? n : 1) ) return p; throw std::bad_alloc(); }
void * operator new( std::size_t n ) { return take(n); }
void * operator new[]( std::size_t n ) { return take(n); }
void operator delete( void * p ) noexcept { std::free(p); }
void operator delete[]( void * p ) noexcept { std::free(p); }
void operator delete( void * p, std::size_t ) noexcept { std::free(p); }
void operator delete[]( void * p, std::size_t ) noexcept { std::free(p); }
namespace pt {
static void one( Src & g, Ctx & c ) {
  int const N = 2; std::unique_ptr<GC> P[N]; GenOpt o; o.max_depth = g.range(0,3); o.max_len = 4;
  for ( int i = 0; i < N; ++i ) { P[i].reset(new GC); MV m = gen(g,o); build_varied(g,*P[i],m); c.log("c"+std::to_string(i)+" = "+show(m)); }
  int steps = g.range(1,12);
  for ( int s = 0; s < steps; ++s ) {
    int i = int(g.below(N)), j = int(g.below(N));
    MV mi = read_checked(*P[i],"c"), mj = read_checked(*P[j],"c"), mo = read_checked(*P[1-i],"c");
    if ( nodes(mi)+nodes(mj) > 300 ) { P[i]->clear(); continue; }
    Path p = gen_path(g,mi), q = gen_path(g,mj); GC & x = at(*P[i],p); GC & y = at(*P[j],q);
    std::string w = "c"+std::to_string(i)+show(p)+" and c"+std::to_string(j)+show(q)+": "; char const * what = "?"; bool refused = false;
    try { what = step(g,x,y,i == j); } catch ( std::exception const & e ) { refused = true; what = "refused"; c.log(w+"refused: "+e.what()); c.label("refused"); }
    if ( !refused ) { c.log(w+what); c.label(what); }
    for ( int k = 0; k < N; ++k ) { GC const & z = *P[k]; MV a = read_checked(z,"container after "+w+what); GC t(z); c.check( same(a,read_checked(t,"copy")), "the container cannot be copied after "+w+what ); if ( k == i ) { std::string d = diff_outside(mi,a,p); c.check( d.empty(), "changed outside the target of "+w+what+": "+d ); } else c.check( same(a,mo), "the other container changed after "+w+what+": "+diff(mo,a) ); }
  }
  c.nontrivial = steps > 1;
}
} // namespace pt
using namespace pt;
int main( int argc, char ** argv ) {
  Property p; p.id = "C18"; p.one = one; p.init = quiet; p.leak_check = true;
  p.rule = "histories of up to 12 operations, on any node of two containers with random trees, drawn from the whole interface: storing, copying, merging, clearing, erasing, indexing, promoting, appending, collapsing, resizing, (de)serializing whole and damaged buffers, reading whole and damaged JSON, YAML, TOML and tables, printing, converting, comparing; operations that do not apply are refused by an exception. After each, both containers are read completely and copied and must be unchanged outside the node operated on, under ASan; requests for more than 64 MB are refused, so indices up to 2^32-1 are used; at the end the bytes allocated have to be back. Non-trivial: more than one operation.";
  return pt_main(argc,argv,p);
}

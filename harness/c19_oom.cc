// C19: when memory runs out in the middle of an operation, containers stay valid and nothing is lost twice or leaked.
#include "ops.hh"
#include "quiet.hh"
#include <new>
#include <cstdlib>
static long g_left = -1;      // allocations until the next one fails; negative: never
static bool g_hit = false;
static void * take( std::size_t n ) {
  if ( g_left == 0 ) { g_left = -1; g_hit = true; throw std::bad_alloc(); }
  if ( g_left > 0 ) --g_left;
  if ( void * p = std::malloc(n ? n : 1) ) return p;
  throw std::bad_alloc();
}
void * operator new( std::size_t n ) { return take(n); }
void * operator new[]( std::size_t n ) { return take(n); }
void operator delete( void * p ) noexcept { std::free(p); }
void operator delete[]( void * p ) noexcept { std::free(p); }
void operator delete( void * p, std::size_t ) noexcept { std::free(p); }
void operator delete[]( void * p, std::size_t ) noexcept { std::free(p); }
namespace pt {
struct Arm { explicit Arm( long n ) { g_hit = false; g_left = n; } ~Arm() { g_left = -1; } };
// the argument is made by the test itself, so only the library allocates while the fault is armed
static char const * op( Src & g, GC & x, GC & y, bool alias, long n ) {
  switch ( g.below(20) ) {
  case 0: { GenOpt o; o.max_depth = 0; o.max_len = 6; MV a = gen(g,o); Arm f(n); build(x,a); return "store"; }
  case 1: { Arm f(n); x = y; return "assign"; }
  case 2: { Arm f(n); x.from_gc(y); return "from_gc"; }
  case 3: { Arm f(n); GC t(y); x.load(t); return "copy"; }
  case 4: { Arm f(n); x.merge(y,"t"); return "merge"; }
  case 5: { std::string k = key(g,x); Arm f(n); x[k]; return "operator [key]"; }
  case 6: { unsigned i = unsigned(g.below(9)); Arm f(n); x[i]; return "operator [i]"; }
  case 7: { std::string k = key(g,x); Arm f(n); x(k,"t"); return "operator (key)"; }
  case 8: { unsigned w = unsigned(g.below(5)); Arm f(n); switch ( w ) { case 0: x.promote_to_int(); break; case 1: x.promote_to_long(); break; case 2: x.promote_to_real(); break; case 3: x.promote_to_complex(); break; default: x.promote_to_vector(); } return "promote"; }
  case 9: case 10: { unsigned w = unsigned(g.below(8)); Arm f(n); switch ( w ) { case 0: x.promote_to_vec_int(); break; case 1: x.promote_to_vec_long(); break; case 2: x.promote_to_vec_real(); break; case 3: x.promote_to_vec_complex(); break; case 4: x.promote_to_mat_int(); break; case 5: x.promote_to_mat_long(); break; case 6: x.promote_to_mat_real(); break; default: x.promote_to_mat_complex(); } return "promote to vectors"; }
  case 11: case 12: { unsigned w = unsigned(g.below(6)); GenOpt o; int i = gen_i32(g); int64_t l = gen_i64(g); double d = gen_double(g,o); std::string s = gen_string(g,GenOpt::Str::Bytes,30); Arm f(n); switch ( w ) { case 0: x.push_bool(i&1); break; case 1: x.push_int(i); break; case 2: x.push_long(l); break; case 3: x.push_real(d); break; case 4: x.push_complex(1,d); break; default: x.push_string(s); } return "push"; }
  case 13: case 14: { Arm f(n); x.collapse(); return "collapse"; }
  case 15: { if ( alias ) return ""; std::vector<uint8_t> b; y.serialize(b); std::string s(b.begin(),b.end()); s = damage(g,s); b.assign(s.begin(),s.end()); if ( b.empty() ) return ""; Arm f(n); x.de_serialize(b); return "de_serialize"; }
  case 16: { std::vector<uint8_t> b; Arm f(n); y.serialize(b); return "serialize"; }
  case 17: { unsigned i = unsigned(g.below(6)), j = unsigned(g.below(4)), w = unsigned(g.below(13)); Arm f(n); switch ( w ) { case 0: x.set_vec_pointer(i); break; case 1: x.set_vec_bool(i); break; case 2: x.set_vec_int(i); break; case 3: x.set_vec_long(i); break; case 4: x.set_vec_real(i); break; case 5: x.set_vec_complex(i); break; case 6: x.set_vec_string(i); break; case 7: x.set_vector(i); break; case 8: x.set_map(); break; case 9: x.set_mat_real(i,j); break; case 10: x.set_mat_complex(i,j); break; case 11: x.set_mat_long(i,j); break; default: x.set_mat_int(i,j); } return "resize"; }
  case 18: { unsigned i = unsigned(g.below(5)), j = unsigned(g.below(4)), w = unsigned(g.below(8)); Arm f(n); switch ( w ) { case 0: x.get_real_at(i,j) = 1; break; case 1: x.get_int_at(i,j) = 1; break; case 2: x.get_real_at(i) = 1; break; case 3: x.get_complex_at(i) = 1; break; case 4: x.get_bool_at(i); break; case 5: x.get_complex(); break; case 6: x.get_complex_at(i,j); break; default: x.get_string_at(i) = "a longer string than fits in place"; } return "at"; }
  default: { Arm f(n); x.clear(); x.set_string("a longer string than fits in place"); return "string"; }
  }
}
static void one( Src & g, Ctx & c ) {
  int const N = 2; std::unique_ptr<GC> P[N]; GenOpt o; o.max_depth = g.range(0,3); o.max_len = 4;
  for ( int i = 0; i < N; ++i ) { P[i].reset(new GC); MV m = gen(g,o); build_varied(g,*P[i],m); c.log("c"+std::to_string(i)+" = "+show(m)); }
  int steps = g.range(1,5);
  for ( int s = 0; s < steps; ++s ) {
    int i = int(g.below(N)), j = int(g.below(N)); MV before[N]; for ( int k = 0; k < N; ++k ) before[k] = read_checked(*P[k],"c");
    if ( nodes(before[0])+nodes(before[1]) > 200 ) { P[i]->clear(); continue; }
    Path p = gen_path(g,before[i]), q = gen_path(g,before[j]); GC & x = at(*P[i],p); GC & y = at(*P[j],q);
    std::string w = "c"+std::to_string(i)+show(p)+" and c"+std::to_string(j)+show(q)+": "; std::string what = "?";
    long n = g.chance(1,3) ? g.range(0,30) : g.range(0,5); bool out = false;
    try { what = op(g,x,y,i == j,n); } catch ( std::bad_alloc const & ) { out = true; what = "out of memory"; } catch ( std::exception const & e ) { what = std::string("refused: ")+e.what(); }
    g_left = -1; if ( vast(x) ) x.clear();
    if ( out ) { c.label("out of memory"); c.nontrivial = true; } else c.label("completed");
    c.log(w+what+( out ? " at allocation "+std::to_string(n) : "" ));
    for ( int k = 0; k < N; ++k ) {
      MV a = read_checked(*P[k],"container after "+w+what); GC t(*P[k]); c.check( same(a,read_checked(t,"copy")), "the container cannot be copied after "+w+what );
      if ( k != i ) c.check( same(a,before[k]), "the other container changed: "+diff(before[k],a) ); else { std::string d = diff_outside(before[k],a,p); c.check( d.empty(), "changed outside the target of "+w+what+": "+d ); }
    }
    if ( out ) { GenOpt q2; q2.max_depth = 1; MV b = gen(g,q2); build(x,b); c.check( same(b,read_checked(x,"stored after running out of memory")), "a value stored after "+w+what ); }
  }
}
} // namespace pt
using namespace pt;
int main( int argc, char ** argv ) {
  Property p; p.id = "C19"; p.one = one; p.init = quiet; p.leak_check = true;
  p.rule = "histories of up to 5 operations (storing, copying, merging, indexing, promoting, appending, collapsing, resizing, serializing) on any node of two containers with random trees, in each of which the n-th allocation (0..30) fails with bad_alloc. After each, both containers are read completely and copied, what was not operated on must be unchanged, and a new value can be stored in the node that failed; under ASan, and at the end the bytes allocated have to be back. Non-trivial: an allocation failed inside the library and the exception came out.";
  return pt_main(argc,argv,p);
}

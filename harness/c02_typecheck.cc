// C02: an accessor that does not fit the stored kind or size throws and changes nothing; one that fits returns.
#include "views.hh"
namespace pt {
using KS = std::vector<K>;
static bool in( K k, KS const & s ) { for ( K x : s ) if ( x == k ) return true; return false; }

struct CAcc { char const * name; KS ok; void (*f)( GC const & ); };
static std::vector<CAcc> const CONST_ACC = {
  { "get_pvoid", {K::Ptr}, []( GC const & g ) { (void)g.get_pvoid("w"); } },
  { "get_ppvoid", {K::Ptr}, []( GC const & g ) { (void)g.get_ppvoid("w"); } },
  { "get_pointer", {K::Ptr}, []( GC const & g ) { (void)g.get_pointer<int*>(); } },
  { "get_bool const", {K::Bool}, []( GC const & g ) { (void)g.get_bool("w"); } },
  { "get_int const", {K::Int}, []( GC const & g ) { (void)g.get_int(); } },
  { "get_long const", {K::Long}, []( GC const & g ) { (void)g.get_long(); } },
  { "get_real const", {K::Real}, []( GC const & g ) { (void)g.get_real(); } },
  { "get_complex const", {K::Cplx}, []( GC const & g ) { (void)g.get_complex("w"); } },
  { "get_string const", {K::Str}, []( GC const & g ) { (void)g.get_string("w"); } },
  { "get_vector const", {K::Vec}, []( GC const & g ) { (void)g.get_vector(); } },
  { "get_map const", {K::Map}, []( GC const & g ) { (void)g.get_map("w"); } },
  { "get_vec_pointer const", {K::VPtr}, []( GC const & g ) { (void)g.get_vec_pointer(); } },
  { "get_vec_bool const", {K::VBool}, []( GC const & g ) { (void)g.get_vec_bool(); } },
  { "get_vec_int const", {K::VInt}, []( GC const & g ) { (void)g.get_vec_int(); } },
  { "get_vec_long const", {K::VLong}, []( GC const & g ) { (void)g.get_vec_long(); } },
  { "get_vec_real const", {K::VReal}, []( GC const & g ) { (void)g.get_vec_real("w"); } },
  { "get_vec_complex const", {K::VCplx}, []( GC const & g ) { (void)g.get_vec_complex(); } },
  { "get_vec_string const", {K::VStr}, []( GC const & g ) { (void)g.get_vec_string(); } },
  { "get_mat_int const", {K::MInt}, []( GC const & g ) { (void)g.get_mat_int(); } },
  { "get_mat_long const", {K::MLong}, []( GC const & g ) { (void)g.get_mat_long(); } },
  { "get_mat_real const", {K::MReal}, []( GC const & g ) { (void)g.get_mat_real(); } },
  { "get_mat_complex const", {K::MCplx}, []( GC const & g ) { (void)g.get_mat_complex(); } },
  { "get_int_pointer const", {K::Int,K::VInt,K::MInt}, []( GC const & g ) { (void)g.get_int_pointer(); } },
  { "get_long_pointer const", {K::Long,K::VLong,K::MLong}, []( GC const & g ) { (void)g.get_long_pointer(); } },
  { "get_real_pointer const", {K::Real,K::VReal,K::MReal}, []( GC const & g ) { (void)g.get_real_pointer(); } },
  { "get_complex_pointer const", {K::Cplx,K::VCplx,K::MCplx}, []( GC const & g ) { (void)g.get_complex_pointer(); } },
  { "get_number", {K::Bool,K::Int,K::Long,K::Real}, []( GC const & g ) { (void)g.get_number("w"); } },
  { "get_complex_number", {K::Bool,K::Int,K::Long,K::Real,K::Cplx}, []( GC const & g ) { (void)g.get_complex_number("w"); } },
};
// non-const accessors; `made` is the kind an empty container takes (None: it is refused)
struct MAcc { char const * name; KS ok; K made; void (*f)( GC & ); };
static std::vector<MAcc> const MUT_ACC = {
  { "get_pointer", {K::Ptr}, K::None, []( GC & g ) { (void)g.get_pointer<int*>(); } },
  { "get_bool", {K::Bool}, K::Bool, []( GC & g ) { (void)g.get_bool("w"); } },
  { "get_int", {K::Int}, K::Int, []( GC & g ) { (void)g.get_int(); } },
  { "get_long", {K::Long}, K::Long, []( GC & g ) { (void)g.get_long(); } },
  { "get_real", {K::Real}, K::Real, []( GC & g ) { (void)g.get_real("w"); } },
  { "get_complex", {K::Cplx}, K::Cplx, []( GC & g ) { (void)g.get_complex(); } },
  { "get_string", {K::Str}, K::Str, []( GC & g ) { (void)g.get_string(); } },
  { "get_vector", {K::Vec}, K::None, []( GC & g ) { (void)g.get_vector("w"); } },
  { "get_map", {K::Map}, K::None, []( GC & g ) { (void)g.get_map(); } },
  { "get_vec_pointer", {K::VPtr}, K::None, []( GC & g ) { (void)g.get_vec_pointer(); } },
  { "get_vec_bool", {K::VBool}, K::None, []( GC & g ) { (void)g.get_vec_bool(); } },
  { "get_vec_string", {K::VStr}, K::None, []( GC & g ) { (void)g.get_vec_string(); } },
  { "get_int_pointer", {K::Int,K::VInt,K::MInt}, K::None, []( GC & g ) { (void)g.get_int_pointer(); } },
  { "get_long_pointer", {K::Long,K::VLong,K::MLong}, K::None, []( GC & g ) { (void)g.get_long_pointer(); } },
  { "get_real_pointer", {K::Real,K::VReal,K::MReal}, K::None, []( GC & g ) { (void)g.get_real_pointer(); } },
  { "get_complex_pointer", {K::Cplx,K::VCplx,K::MCplx}, K::None, []( GC & g ) { (void)g.get_complex_pointer(); } },
};

template <class F> static void expect( Ctx & c, std::string const & what, bool ok, GC & gc, MV const & a, F && f ) {
  ++c.evals;
  bool threw = false; std::string msg;
  try { f(); } catch ( std::exception const & e ) { threw = true; msg = e.what(); } catch ( Fail const & ) { throw; } catch ( ... ) { fail(what+" throws something that is not a std::exception"); }
  if ( ok && threw ) fail(what+" on "+show(a)+" throws "+msg);
  if ( !ok && !threw ) fail(what+" on "+show(a)+" is accepted");
  std::string d = diff(a,read_checked(gc,what));
  c.check( d.empty(), what+(ok?"":" (refused)")+" changed the container: "+d );
}

static unsigned index( Src & g, size_t n ) { // around the border, and far
  switch ( g.below(5) ) { case 0: return unsigned(n); case 1: return n ? unsigned(n-1) : 0; case 2: return unsigned(n+1+g.below(3)); case 3: return g.pick(std::vector<unsigned>{0xFFFFFFFFu,0x80000000u,0x7FFFFFFFu,1000u}); default: return n ? unsigned(g.below(n)) : 0; }
}

static void one( Src & g, Ctx & c ) {
  GenOpt o; o.max_depth = g.range(0,2); o.nonempty = g.coin();
  K k = K(g.below(NKIND));
  MV a = gen_kind(g,k,o);
  GC gc; build_varied(g,gc,a);
  c.log("value "+show(a)); c.label(std::string("kind ")+kname(a.k));
  c.nontrivial = a.k != K::None;
  GC const & k0 = gc; size_t n = a.count();
  for ( auto const & x : CONST_ACC ) expect(c,x.name,in(a.k,x.ok),gc,a,[&]{ x.f(k0); });
  for ( auto const & x : MUT_ACC ) {
    if ( a.k == K::None && x.made != K::None ) {
      GC e; try { x.f(e); } catch ( std::exception const & ex ) { fail(std::string(x.name)+" on an empty container throws "+ex.what()); }
      std::string d = diff(MV(x.made),read_checked(e,x.name));
      c.check( d.empty(), std::string(x.name)+" on an empty container: "+d );
    } else expect(c,x.name,in(a.k,x.ok),gc,a,[&]{ x.f(gc); });
  }
  for ( int t = 0; t < 6; ++t ) {
    unsigned i = index(g,n), nr = a.nr, nc = a.nc; std::string s = "("+std::to_string(i)+")";
    bool inr = i < n;
    if ( a.k != K::Ptr && a.k != K::None ) expect(c,"free_pointer",false,gc,a,[&]{ gc.free_pointer(); });
    expect(c,"get_bool_at"+s,a.k==K::VBool&&inr,gc,a,[&]{ (void)k0.get_bool_at(i,"w"); });
    expect(c,"get_int_at"+s,a.k==K::VInt&&inr,gc,a,[&]{ (void)k0.get_int_at(i,"w"); });
    expect(c,"get_long_at"+s,a.k==K::VLong&&inr,gc,a,[&]{ (void)k0.get_long_at(i,"w"); });
    expect(c,"get_real_at"+s,a.k==K::VReal&&inr,gc,a,[&]{ (void)k0.get_real_at(i,"w"); });
    expect(c,"get_complex_at"+s,a.k==K::VCplx&&inr,gc,a,[&]{ (void)k0.get_complex_at(i,"w"); });
    expect(c,"get_string_at"+s,a.k==K::VStr&&inr,gc,a,[&]{ (void)k0.get_string_at(i,"w"); });
    expect(c,"get_gc_at"+s,a.k==K::Vec&&inr,gc,a,[&]{ (void)k0.get_gc_at(i,"w"); });
    expect(c,"const []"+s,a.k==K::Vec&&inr,gc,a,[&]{ (void)k0[i]; });
    expect(c,"const ()"+s,a.k==K::Vec&&inr,gc,a,[&]{ (void)k0(i,"w"); });
    expect(c,"()"+s,a.k==K::Vec&&inr,gc,a,[&]{ (void)gc(i); });
    expect(c,"get_pointer_at const"+s,a.k==K::Vec&&inr&&a.v[i].k==K::Ptr,gc,a,[&]{ (void)k0.get_pointer_at<void*>(i); });
    bool numv = in(a.k,{K::VBool,K::VInt,K::VLong,K::VReal,K::MInt,K::MLong,K::MReal}) && inr;
    bool numl = a.k == K::Vec && inr && is_num(a.v[i].k);
    expect(c,"get_number_at"+s,numv||numl,gc,a,[&]{ (void)k0.get_number_at(i,"w"); });
    bool cv = numv || ( (a.k == K::VCplx || a.k == K::MCplx) && inr ), cl = numl || ( a.k == K::Vec && inr && a.v[i].k == K::Cplx );
    expect(c,"get_complex_number_at"+s,cv||cl,gc,a,[&]{ (void)k0.get_complex_number_at(i,"w"); });
    unsigned ri = index(g,nr), cj = index(g,nc); s = "("+std::to_string(ri)+","+std::to_string(cj)+")";
    bool inm = ri < nr && cj < nc;
    expect(c,"get_int_at const"+s,a.k==K::MInt&&inm,gc,a,[&]{ (void)k0.get_int_at(ri,cj,"w"); });
    expect(c,"get_long_at const"+s,a.k==K::MLong&&inm,gc,a,[&]{ (void)k0.get_long_at(ri,cj,"w"); });
    expect(c,"get_real_at const"+s,a.k==K::MReal&&inm,gc,a,[&]{ (void)k0.get_real_at(ri,cj,"w"); });
    expect(c,"get_complex_at const"+s,a.k==K::MCplx&&inm,gc,a,[&]{ (void)k0.get_complex_at(ri,cj,"w"); });
    if ( a.k == K::MInt ) { expect(c,"get_int_at"+s,inm,gc,a,[&]{ (void)gc.get_int_at(ri,cj); }); expect(c,"(i,j)"+s,inm,gc,a,[&]{ (void)gc.get_mat_int()(ri,cj); }); }
    if ( a.k == K::MLong ) { expect(c,"get_long_at"+s,inm,gc,a,[&]{ (void)gc.get_long_at(ri,cj); }); expect(c,"(i,j)"+s,inm,gc,a,[&]{ (void)k0.get_mat_long()(ri,cj); }); }
    if ( a.k == K::MReal ) { expect(c,"get_real_at"+s,inm,gc,a,[&]{ (void)gc.get_real_at(ri,cj); }); expect(c,"(i,j)"+s,inm,gc,a,[&]{ (void)gc.get_mat_real()(ri,cj); });
      std::vector<double> v; expect(c,"get_row"+s,ri<nr,gc,a,[&]{ k0.get_mat_real().get_row(ri,v); }); expect(c,"get_column"+s,cj<nc,gc,a,[&]{ k0.get_mat_real().get_column(cj,v); }); }
    if ( a.k == K::MCplx ) { expect(c,"get_complex_at"+s,inm,gc,a,[&]{ (void)gc.get_complex_at(ri,cj); }); expect(c,"(i,j)"+s,inm,gc,a,[&]{ (void)k0.get_mat_complex()(ri,cj); }); }
  }
  for ( int t = 0; t < 4; ++t ) {
    std::string key = a.k == K::Map && !a.m.empty() && g.coin() ? std::next(a.m.begin(),long(g.below(a.m.size())))->first : gen_string(g,GenOpt::Str::Bytes,5);
    if ( !key.empty() && g.chance(1,4) ) key.pop_back();
    bool has = a.k == K::Map && a.m.count(key);
    std::string s = "["+quote(key)+"]";
    expect(c,"const []"+s,has,gc,a,[&]{ (void)k0[key]; });
    expect(c,"const ()"+s,has,gc,a,[&]{ (void)k0(key,"w"); });
    expect(c,"()"+s,has,gc,a,[&]{ (void)gc(key,"w"); });
    GC_namespace::vec_string_type one_key{key};
    expect(c,"const (list)"+s,has,gc,a,[&]{ (void)k0(one_key,"w"); });
    expect(c,"(list)"+s,has,gc,a,[&]{ (void)gc(one_key,"w"); });
    expect(c,"must_exists"+s,has,gc,a,[&]{ (void)k0.must_exists(one_key,"w"); });
    if ( a.k != K::Map ) expect(c,"erase"+s,false,gc,a,[&]{ k0.erase(key); });
  }
}
} // namespace pt
using namespace pt;
int main( int argc, char ** argv ) {
  Property p; p.id = "C02"; p.one = one;
  p.rule = "one value of each kind in turn (lists, maps and matrices of any size, nested); every read accessor, typed getter, indexed getter (indices inside, at and past the end, up to 2^32-1) and keyed getter (present, absent, prefix keys) is called; the model says which must return and which must throw, and the container must be unchanged either way. Non-trivial: the container is not empty.";
  return pt_main(argc,argv,p);
}

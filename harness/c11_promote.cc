// C11: widening and appending keep every stored number, and a refused one changes nothing.
#include "promo.hh"
#include "tree.hh"
namespace pt {
using namespace GC_namespace;
static char const * const WN[5] = { "bool","int","long","real","complex" };

// one operation on a container and its model; the model says whether it must be accepted
static void op( Src & g, Ctx & c, GC & x, MV & m ) {
  MV w = m; bool ok = true, any = false; std::string name; bool threw;
  GenOpt o; o.max_depth = 1; o.max_len = 4;
  auto chk = [&]( auto && f ) { threw = throws(f); };
  switch ( g.weighted({3,4,4,2,8,3,4,4,3}) ) {
  case 0: { int k = g.range(1,4); name = std::string("promote_to_")+WN[k]; 
    if ( k == 4 && vwidth(m.k) >= 0 ) any = true;
    ok = promote_scalar(w,k);
    chk([&]{ switch ( k ) { case 1: x.promote_to_int(); break; case 2: x.promote_to_long(); break; case 3: x.promote_to_real(); break; default: x.promote_to_complex(); } });
    if ( any && !threw ) { ok = true; w = m; promote_vec(w,4); } 
    break; }
  case 1: { int k = g.range(1,4); name = std::string("promote_to_vec_")+WN[k]; ok = promote_vec(w,k);
    chk([&]{ switch ( k ) { case 1: x.promote_to_vec_int(); break; case 2: x.promote_to_vec_long(); break; case 3: x.promote_to_vec_real(); break; default: x.promote_to_vec_complex(); } });
    break; }
  case 2: { int k = g.range(1,4); name = std::string("promote_to_mat_")+WN[k]; ok = promote_mat(w,k);
    chk([&]{ switch ( k ) { case 1: x.promote_to_mat_int(); break; case 2: x.promote_to_mat_long(); break; case 3: x.promote_to_mat_real(); break; default: x.promote_to_mat_complex(); } });
    break; }
  case 3: name = "promote_to_vector"; ok = promote_list(w); chk([&]{ x.promote_to_vector(); }); break;
  case 4: { // push
    MV v; switch ( g.below(6) ) { case 0: v = MV::Bool(g.coin()); break; case 1: v = MV::Int(gen_i32(g)); break; case 2: v = MV::Long(gen_i64(g)); break; case 3: v = MV::Real(gen_double(g,o)); break; case 4: v = MV::Cplx(cplx(gen_double(g,o),gen_double(g,o))); break; default: v = MV::Str(gen_string(g,GenOpt::Str::Bytes,6)); }
    // the value pushed may be one that the container holds
    GC_namespace::complex_type * oc = nullptr; std::string const * os = nullptr;
    if ( g.chance(1,3) ) {
      if ( m.k == K::Cplx ) oc = &x.get_complex(); else if ( m.k == K::VCplx && !m.vc.empty() ) oc = &x.get_vec_complex()[g.below(m.vc.size())]; else if ( m.k == K::Str ) os = &x.get_string(); else if ( m.k == K::VStr && !m.vs.empty() ) os = &x.get_vec_string()[g.below(m.vs.size())];
      else if ( m.k == K::Vec && !m.v.empty() ) { size_t e = g.below(m.v.size()); if ( m.v[e].k == K::Cplx ) oc = &x.get_vector()[e].get_complex(); else if ( m.v[e].k == K::Str ) os = &x.get_vector()[e].get_string(); }
      if ( oc ) { v = MV::Cplx(*oc); c.label("push its own value"); } else if ( os ) { v = MV::Str(*os); c.label("push its own value"); } }
    name = "push "+show(v);
    if ( v.k == K::Bool && vwidth(m.k) < 0 && m.k != K::Vec ) { // only onto lists
      ok = false; if ( m.k == K::None ) any = true;
    } else ok = push(w,v);
    bool via_parts = g.coin();
    chk([&]{ switch ( v.k ) { case K::Bool: x.push_bool(v.b); break; case K::Int: x.push_int(v.i); break; case K::Long: x.push_long(v.l); break; case K::Real: x.push_real(v.r); break;
      case K::Cplx: if ( oc ) x.push_complex(*oc); else if ( via_parts ) x.push_complex(v.c.real(),v.c.imag()); else { cplx t = v.c; x.push_complex(t); } break; default: if ( os ) x.push_string(*os); else x.push_string(v.s); } });
    if ( any && !threw ) { m = read_checked(x,name); c.log(name); return; }
    break; }
  case 5: { // a mutable typed vector
    int k = g.range(1,4); name = std::string("get_vec_")+WN[k]; ok = vwidth(m.k) >= 0 && vwidth(m.k) <= k && promote_vec(w,k); if ( m.k == K::None ) { ok = true; w = MV(VK[k]); }
    size_t n = 0;
    chk([&]{ switch ( k ) { case 1: n = x.get_vec_int("w").size(); break; case 2: n = x.get_vec_long("w").size(); break; case 3: n = x.get_vec_real("w").size(); break; default: n = x.get_vec_complex("w").size(); } });
    if ( ok && !threw ) c.check( n == m.count(), name+": "+std::to_string(n)+" elements of "+std::to_string(m.count()) );
    break; }
  case 6: { // a mutable typed matrix
    int k = g.range(1,4); name = std::string("get_mat_")+WN[k]; 
    if ( m.k == K::None ) { w = MV(MK[k]); } else ok = ( vwidth(m.k) >= 0 || mwidth(m.k) >= 0 ) && promote_mat(w,k);
    unsigned r = 0, q = 0;
    chk([&]{ auto f = [&]( auto & t ) { r = t.num_rows(); q = t.num_cols(); }; switch ( k ) { case 1: f(x.get_mat_int("w")); break; case 2: f(x.get_mat_long("w")); break; case 3: f(x.get_mat_real("w")); break; default: f(x.get_mat_complex("w")); } });
    if ( ok && !threw ) c.check( r == w.nr && q == w.nc, name+": "+std::to_string(r)+"x"+std::to_string(q) );
    break; }
  case 7: { // store one element by its position, growing
    int k = g.range(0,5); unsigned i = unsigned(g.below(6)); MV v = k == 5 ? MV::Str(gen_string(g,GenOpt::Str::Bytes,6)) : MV(SK[k]);
    switch ( k ) { case 1: v.i = gen_i32(g); break; case 2: v.l = gen_i64(g); break; case 3: v.r = gen_double(g,o); break; case 4: v.c = cplx(gen_double(g,o),gen_double(g,o)); break; default: break; }
    static char const * const nm[] = { "bool","int","long","real","complex","string" }; name = std::string("get_")+nm[k]+"_at("+std::to_string(i)+") = "+( k ? show(v) : "" );
    K vk = k == 5 ? K::VStr : VK[k]; MV was(v.k), seen(v.k); MV alt; bool two = false; // numbers alone may become a vector or a list
    auto as_vec = [&]( MV & z ) -> bool { if ( m.k == K::None || m.k == vk ) { if ( m.k == K::None ) z = MV(vk); } else if ( k == 0 || k == 5 || !( ( vwidth(m.k) >= 0 && vwidth(m.k) <= k ) || ( swidth(m.k) >= 0 && swidth(m.k) <= k ) ) || !promote_vec(z,k) ) return false;
      while ( z.count() <= i ) { if ( k == 5 ) z.vs.emplace_back(); else append(z,zero(k)); }
      switch ( k ) { case 0: break; case 1: was.i = z.vi[i]; break; case 2: was.l = z.vl[i]; break; case 3: was.r = z.vr[i]; break; case 4: was.c = z.vc[i]; break; default: was.s = z.vs[i]; }
      switch ( k ) { case 0: break; case 1: z.vi[i] = v.i; break; case 2: z.vl[i] = v.l; break; case 3: z.vr[i] = v.r; break; case 4: z.vc[i] = v.c; break; default: z.vs[i] = v.s; } return true; };
    auto as_list = [&]( MV & z ) -> bool { if ( !promote_list(z) ) return false; while ( z.v.size() <= i ) z.v.emplace_back(); if ( z.v[i].k == was.k ) was = z.v[i]; if ( k || z.v[i].k != K::Bool ) z.v[i] = v; return true; };
    bool scalar = swidth(m.k) >= 0; MV l = m; ok = as_vec(w); if ( !ok || scalar ) { MV q = m; if ( as_list(q) ) { if ( ok ) { alt = q; two = true; } else w = q; ok = true; } }
    bool got = false;
    chk([&]{ switch ( k ) { case 0: got = x.get_bool_at(i); break; case 1: { auto & e = x.get_int_at(i); seen.i = e; e = v.i; break; } case 2: { auto & e = x.get_long_at(i); seen.l = e; e = v.l; break; } case 3: { auto & e = x.get_real_at(i); seen.r = e; e = v.r; break; }
      case 4: { auto & e = x.get_complex_at(i); seen.c = e; e = v.c; break; } default: { auto & e = x.get_string_at(i); seen.s = e; e = v.s; } } });
    if ( k && ok && !two && !threw ) c.check( same(seen,was), name+" on "+show(m)+" refers to "+show(seen) );
    if ( two && !threw && same(alt,read_checked(x,name)) ) w = alt;
    if ( k == 0 && ok && !threw ) c.check( got == ( w.k == K::VBool ? bool(w.vb[i]) : w.v[i].b ), name+" gives another value" );
    break; }
  default: { // store one element by row and column
    int k = g.range(1,4); unsigned i = unsigned(g.below(5)), j = m.k == K::None || mwidth(m.k) >= 0 ? unsigned(g.below(4)) : unsigned(g.weighted({4,1}));
    MV v(SK[k]); switch ( k ) { case 1: v.i = gen_i32(g); break; case 2: v.l = gen_i64(g); break; case 3: v.r = gen_double(g,o); break; default: v.c = cplx(gen_double(g,o),gen_double(g,o)); }
    name = std::string("get_")+WN[k]+"_at("+std::to_string(i)+","+std::to_string(j)+") = "+show(v);
    MV wide = m;
    if ( m.k == K::None ) { wide = MV(MK[k]); wide.nr = i+1; wide.nc = j+1; for ( size_t q = 0; q < size_t(i+1)*(j+1); ++q ) append(wide,zero(k)); }
    else { ok = ( vwidth(m.k) >= 0 || mwidth(m.k) >= 0 ) && promote_mat(wide,k); if ( mwidth(m.k) >= 0 && mwidth(m.k) < k && k < 4 ) any = true; }
    bool fits = ok; if ( ok && ( i >= wide.nr || j >= wide.nc ) ) ok = false;
    if ( ok ) { w = wide; size_t q = size_t(j)*w.nr+i; switch ( k ) { case 1: w.vi[q] = v.i; break; case 2: w.vl[q] = v.l; break; case 3: w.vr[q] = v.r; break; default: w.vc[q] = v.c; } }
    chk([&]{ switch ( k ) { case 1: x.get_int_at(i,j) = v.i; break; case 2: x.get_long_at(i,j) = v.l; break; case 3: x.get_real_at(i,j) = v.r; break; default: x.get_complex_at(i,j) = v.c; } });
    if ( !ok ) any = false;
    if ( threw && fits && same(wide,read_checked(x,name)) ) { m = wide; } // widened before the index was found out of range
    break; }
  }
  c.log(name+" on "+show(m)+(threw?" refused":""));
  c.label( threw ? "refused" : m.k == w.k ? "same kind" : std::string("to ")+kname(w.k) );
  if ( any && threw ) ok = false;
  if ( !ok ) c.check( threw || any, name+" on "+show(m)+" is accepted" );
  else c.check( !threw, name+" on "+show(m)+" is refused" );
  if ( threw ) w = m;
  std::string d = diff(w,read_checked(x,name));
  c.check( d.empty(), name+" on "+show(m)+": "+d );
  if ( !same(w,m) ) c.nontrivial = true;
  m = w;
}

static void one( Src & g, Ctx & c ) {
  GenOpt o; o.max_depth = g.range(0,2); o.max_len = 4;
  GenOpt num = o; num.only({K::None,K::Bool,K::Int,K::Long,K::Real,K::Cplx,K::VBool,K::VInt,K::VLong,K::VReal,K::VCplx,K::MInt,K::MLong,K::MReal,K::MCplx});
  MV top = g.chance(2,3) ? gen(g,num) : gen(g,o);
  if ( g.chance(1,3) ) { MV h(K::Map); h.m["n"] = top; h.m["s"] = gen(g,num); top = h; }
  GC gc; build_varied(g,gc,top); c.log("value "+show(top));
  int n = g.range(1,8);
  for ( int i = 0; i < n; ++i ) {
    Path p = gen_path(g,top,4);
    op(g,c,at(gc,p),at(top,p));
  }
  std::string d = diff(top,read_checked(gc,"at the end"));
  c.check( d.empty(), "at the end: "+d );
}
} // namespace pt
using namespace pt;
int main( int argc, char ** argv ) {
  Property p; p.id = "C11"; p.one = one;
  p.rule = "histories of up to 8 promotions (to scalar, vector, matrix, list), pushes, mutable typed vector/matrix accesses and element stores (by position and by row and column) on numeric and other values, at the root or inside a tree, against a reference widening model; accepted ones must keep every number exactly (integers above 2^53 widened to real are rounded once), refused ones must change nothing. Unspecified: promote_to_complex of a vector and push_bool on an empty container. Non-trivial: at least one operation changed the value.";
  return pt_main(argc,argv,p);
}

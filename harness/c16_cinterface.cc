// C16: histories of calls of the C interface agree with the containers they work on, report errors by value and touch nothing else.
#include "promo.hh"
#include "tree.hh"
#include "quiet.hh"
#include "GenericContainer/GenericContainerInterface_C.h"
namespace pt {
static char const * const IDS[] = { "a", "b", "", "a longer name" };
struct Cont { MV root; Path head; bool empty{false}; GC * p{nullptr}; }; // empty: the last level was removed too
struct World {
  Ctx & c; std::map<std::string,Cont> all; std::string act; bool active{false};
  Cont & cur() { return all.at(act); }
  bool usable() { return active && !cur().empty; }
  MV & top() { return at(cur().root,cur().head); }
};
template <class F> static auto call( char const * what, F && f ) { // no C++ exception may reach a C caller
  try { return f(); } catch ( Fail const & ) { throw; } catch ( std::exception const & e ) { fail(std::string(what)+" throws "+e.what()); } catch (...) { fail(std::string(what)+" throws"); }
}
static void reg( World & w, std::string const & id ) { // after id was selected
  void * p = call("GC_mem_ptr",[&]{ return GC_mem_ptr(id.c_str()); }); w.c.check( p != nullptr, "GC_mem_ptr gives NULL" );
  Cont & x = w.all[id]; w.c.check( x.p == nullptr || x.p == p, "GC_mem_ptr gives another container for the same name" ); x.p = static_cast<GC*>(p); w.act = id; w.active = true;
}
static std::string cstr( std::string s ) { return s.substr(0,s.find('\0')); }
static void same_all( World & w, std::string const & what ) {
  for ( auto & x : w.all ) {
    GC * p = x.second.p;
    std::string d = diff(x.second.root,read_checked(*p,what)); w.c.check( d.empty(), "after "+what+" container "+quote(x.first)+": "+d );
  }
}
static bool eqd( double a, double b ) { return same_double(a,b); }
static void getters( Src & g, World & w ) {
  Ctx & c = w.c; bool u = w.usable(); MV none; MV const m = u ? w.top() : none;
  char const * bad = "the C getter of another kind";
  { int t = call("GC_get_type",[&]{ return GC_get_type(); }); if ( u ) c.check( t == int(to_gct(m.k)), "GC_get_type is "+std::to_string(t)+" for "+show(m) ); else c.check( t < 0 , "GC_get_type is "+std::to_string(t)+" with nothing selected" ); }
  { char const * t = call("GC_get_type_name",[&]{ return GC_get_type_name(); }); c.check( t != nullptr, "GC_get_type_name is NULL" ); if ( u ) c.check( GC_namespace::to_string(to_gct(m.k)) == std::string(t), std::string("GC_get_type_name is ")+t+" for "+show(m) ); }
  int b = call("GC_get_bool",[&]{ return GC_get_bool(); }), i = call("GC_get_int",[&]{ return GC_get_int(); }); long l = call("GC_get_long",[&]{ return GC_get_long(); }); double r = call("GC_get_real",[&]{ return GC_get_real(); });
  c_complex_type z = call("GC_get_complex",[&]{ return GC_get_complex(); }); double zr = call("GC_get_complex_re",[&]{ return GC_get_complex_re(); }), zi = call("GC_get_complex_im",[&]{ return GC_get_complex_im(); });
  char const * s = call("GC_get_string",[&]{ return GC_get_string(); });
  int n = call("GC_get_vector_size",[&]{ return GC_get_vector_size(); }), nr = call("GC_get_matrix_num_rows",[&]{ return GC_get_matrix_num_rows(); }), nc = call("GC_get_matrix_num_cols",[&]{ return GC_get_matrix_num_cols(); });
  switch ( m.k ) {
  case K::Bool: c.check( u && b == int(m.b), "GC_get_bool is "+std::to_string(b)+" for "+show(m) ); break;
  case K::Int: c.check( i == m.i, "GC_get_int is "+std::to_string(i)+" for "+show(m) ); break;
  case K::Long: c.check( l == m.l, "GC_get_long is "+std::to_string(l)+" for "+show(m) ); break;
  case K::Real: c.check( eqd(r,m.r), "GC_get_real is "+std::to_string(r)+" for "+show(m) ); break;
  case K::Cplx: c.check( eqd(z.real,m.c.real()) && eqd(z.imag,m.c.imag()) && eqd(zr,m.c.real()) && eqd(zi,m.c.imag()), "GC_get_complex is wrong for "+show(m) ); break;
  case K::Str: c.check( s && cstr(m.s) == s, "GC_get_string is wrong for "+show(m) ); break;
  case K::MInt: case K::MLong: case K::MReal: case K::MCplx: c.check( nr == int(m.nr) && nc == int(m.nc), "GC_get_matrix_num_rows/cols is "+std::to_string(nr)+"x"+std::to_string(nc)+" for "+show(m) ); break;
  case K::None: break;
  default: c.check( n == int(m.count()), "GC_get_vector_size is "+std::to_string(n)+" for "+show(m) );
  }
  // what cannot be read gives 0 or NULL; a number of another kind may be converted
  auto other = [&]( MV const & e, K k, double got ) { return e.k == k || got == 0 || ( swidth(e.k) >= 0 && e.k != K::Cplx && ( eqd(got,num(e)) || got == num(e) ) ); };
  c.check( other(m,K::Bool,b) && other(m,K::Int,i) && other(m,K::Long,double(l)) && other(m,K::Real,r), std::string("GC_get_bool, int, long or real gives ")+std::to_string(b)+","+std::to_string(i)+","+std::to_string(l)+","+std::to_string(r)+" for "+( u ? show(m) : "nothing selected" ) );
  c.check( m.k == K::Cplx || ( z.imag == 0 && zi == 0 && other(m,K::Cplx,z.real) && other(m,K::Cplx,zr) ), std::string("GC_get_complex of ")+( u ? show(m) : "nothing selected" ) );
  c.check( m.k == K::Str || s == nullptr, std::string("GC_get_string is not NULL for ")+( u ? show(m) : "nothing selected" ) );
  if ( !u ) c.check( n <= 0 && nr <= 0 && nc <= 0, "a size is "+std::to_string(n)+", "+std::to_string(nr)+"x"+std::to_string(nc)+" with nothing selected" );
  // one element
  int cnt = u ? int(m.count()) : 0;
  int pos = cnt > 0 && g.chance(3,4) ? g.range(0,cnt-1) : g.coin() ? cnt+g.range(0,2) : g.coin() ? -1 : INT32_MIN;
  MV e; if ( u && pos >= 0 && pos < cnt ) { std::vector<MV> es; if ( m.k == K::Vec ) e = m.v[size_t(pos)]; else if ( m.k == K::VStr ) e = MV::Str(m.vs[size_t(pos)]); else if ( vwidth(m.k) >= 0 ) { elements(m,es); e = es[size_t(pos)]; } }
  std::string at = "_at_pos("+std::to_string(pos)+") for "+show(m);
  b = call("GC_get_bool_at_pos",[&]{ return GC_get_bool_at_pos(pos); }); i = call("GC_get_int_at_pos",[&]{ return GC_get_int_at_pos(pos); }); r = call("GC_get_real_at_pos",[&]{ return GC_get_real_at_pos(pos); });
  z = call("GC_get_complex_at_pos",[&]{ return GC_get_complex_at_pos(pos); }); zr = call("GC_get_complex_real_at_pos",[&]{ return GC_get_complex_real_at_pos(pos); }); zi = call("GC_get_complex_imag_at_pos",[&]{ return GC_get_complex_imag_at_pos(pos); });
  s = call("GC_get_string_at_pos",[&]{ return GC_get_string_at_pos(pos); });
  if ( e.k == K::Bool ) c.check( b == int(e.b), "GC_get_bool"+at );
  if ( e.k == K::Int ) c.check( i == e.i, "GC_get_int"+at );
  if ( e.k == K::Str ) c.check( s && cstr(e.s) == s, "GC_get_string"+at );
  if ( vwidth(m.k) >= 0 && vwidth(m.k) <= 3 && e.k != K::None ) c.check( eqd(r,num(e)), "GC_get_real"+at+" is "+std::to_string(r) );
  if ( vwidth(m.k) >= 0 && e.k != K::None ) { cplx x = widen(e,4).c; c.check( eqd(z.real,x.real()) && eqd(z.imag,x.imag()) && eqd(zr,x.real()) && eqd(zi,x.imag()), "GC_get_complex"+at ); }
  if ( mwidth(m.k) < 0 ) {
    c.check( other(e,K::Bool,b) && other(e,K::Int,i) && ( other(e,K::Real,r) || ( e.k == K::Cplx && e.c.imag() == 0 && ( eqd(r,e.c.real()) || r == e.c.real() ) ) ), std::string("GC_get_bool, int or real")+at+" is "+std::to_string(b)+","+std::to_string(i)+","+std::to_string(r) );
    c.check( e.k == K::Str || s == nullptr, "GC_get_string"+at+" is not NULL" );
    c.check( e.k == K::Cplx || ( z.imag == 0 && zi == 0 && other(e,K::Cplx,z.real) && other(e,K::Cplx,zr) ), "GC_get_complex"+at );
  }
  int ii = m.nr > 0 && g.chance(3,4) ? g.range(0,int(m.nr)-1) : int(m.nr)+g.range(-1,1), jj = m.nc > 0 && g.chance(3,4) ? g.range(0,int(m.nc)-1) : int(m.nc)+g.range(-1,1);
  r = call("GC_get_real_at_coor",[&]{ return GC_get_real_at_coor(ii,jj); }); z = call("GC_get_complex_at_coor",[&]{ return GC_get_complex_at_coor(ii,jj); }); zr = call("GC_get_complex_real_at_coor",[&]{ return GC_get_complex_real_at_coor(ii,jj); }); zi = call("GC_get_complex_imag_at_coor",[&]{ return GC_get_complex_imag_at_coor(ii,jj); });
  if ( u && ii >= 0 && jj >= 0 && ii < int(m.nr) && jj < int(m.nc) ) {
    size_t q = size_t(ii)+size_t(jj)*m.nr; std::string ac = "_at_coor("+std::to_string(ii)+","+std::to_string(jj)+") for "+show(m);
    if ( m.k == K::MReal ) c.check( eqd(r,m.vr[q]), "GC_get_real"+ac+" is "+std::to_string(r) );
    if ( m.k == K::MCplx ) c.check( eqd(z.real,m.vc[q].real()) && eqd(z.imag,m.vc[q].imag()) && eqd(zr,m.vc[q].real()) && eqd(zi,m.vc[q].imag()), "GC_get_complex"+ac );
    std::vector<MV> es; elements(m,es); MV const & x = es.at(q);
    if ( x.k != K::Cplx ) c.check( zi == 0 && z.imag == 0 && other(x,K::Real,r) && other(x,K::Cplx,z.real) && other(x,K::Cplx,zr), "GC_get_real or complex"+ac+" is "+std::to_string(r)+", "+std::to_string(zr)+"+"+std::to_string(zi)+"i" );
    if ( m.k == K::MReal ) c.check( eqd(z.real,m.vr[q]) && eqd(zr,m.vr[q]), "GC_get_complex"+ac );
    c.label("matrix element");
  }
  else c.check( r == 0 && z.real == 0 && z.imag == 0 && zr == 0 && zi == 0, "an element that is not there, at "+std::to_string(ii)+","+std::to_string(jj)+", is not 0 for "+show(m) );
  (void)bad; c.label("getters");
  same_all(w,"reading");
}
static void keys( Src & g, World & w ) {
  Ctx & c = w.c; bool u = w.usable(); int ok = call("GC_init_map_key",[&]{ return GC_init_map_key(); });
  bool map = u && w.top().k == K::Map;
  if ( !map ) { c.check( ok != 0, "GC_init_map_key accepts what is not a map" ); if ( u ) c.check( ok == GENERIC_CONTAINER_BAD_TYPE, "GC_init_map_key on what is not a map returns "+std::to_string(ok) ); return; }
  c.check( ok == 0, "GC_init_map_key fails on a map" );
  std::multiset<std::string> want, got; for ( auto const & x : w.top().m ) want.insert(cstr(x.first));
  for ( size_t i = 0; ; ++i ) {
    char const * kp = call("GC_get_next_key",[&]{ return GC_get_next_key(); }); if ( !kp ) break;
    c.check( i < want.size(), "GC_get_next_key gives more than "+std::to_string(want.size())+" keys" );
    std::string k = kp; got.insert(k);
    if ( g.chance(1,4) && w.top().m.count(k) ) { // work on the value of the key, then go on
      c.label("keys, values visited");
      c.check( call("GC_push_map_position",[&]{ return GC_push_map_position(k.c_str()); }) == 0, "GC_push_map_position of the visited key "+quote(k)+" fails" );
      MV & e = w.top().m[k]; int t = GC_get_type(); c.check( t == int(to_gct(e.k)), "GC_get_type is "+std::to_string(t)+" for the value "+show(e)+" of the visited key "+quote(k) );
      if ( g.chance(1,4) ) { int x = gen_i32(g); c.log("store at the visited key "+quote(k)); c.check( call("GC_set_int",[&]{ return GC_set_int(x); }) == 0, "GC_set_int at a visited key fails" ); e = MV::Int(x); }
      c.check( call("GC_pop_head",[&]{ return GC_pop_head(); }) == 0, "GC_pop_head fails" );
    }
    if ( w.all.size() > 1 && g.chance(1,8) ) { // meanwhile in another container
      std::vector<std::string> ids; for ( auto const & x : w.all ) if ( x.first != w.act ) ids.push_back(x.first);
      std::string id = ids[g.below(ids.size())]; call("GC_select",[&]{ return GC_select(id.c_str()); }); c.label("keys, containers alternated");
      int t = GC_get_type(); Cont & y = w.all.at(id); if ( !y.empty ) c.check( t == int(to_gct(at(y.root,y.head).k)), "GC_get_type is "+std::to_string(t)+" for "+show(at(y.root,y.head)) );
      if ( call("GC_init_map_key",[&]{ return GC_init_map_key(); }) == 0 && g.coin() ) call("GC_get_next_key",[&]{ return GC_get_next_key(); });
      call("GC_select",[&]{ return GC_select(w.act.c_str()); });
    }
    if ( w.cur().head.empty() && g.chance(1,10) ) { c.label("keys, head reset"); c.check( call("GC_reset_head",[&]{ return GC_reset_head(); }) == 0, "GC_reset_head fails" ); }
    if ( g.chance(1,10) ) return;
  }
  c.check( want == got, "the keys of GC_get_next_key are not those of "+show(w.top()) ); c.label("keys");
  c.check( call("GC_get_next_key",[&]{ return GC_get_next_key(); }) == nullptr, "GC_get_next_key restarts" );
}
static void step( Src & g, World & w ) {
  Ctx & c = w.c; GenOpt o; o.max_depth = 2; o.max_len = 4; o.str = GenOpt::Str::BytesNoNul;
  auto S = [&]{ return gen_string(g,GenOpt::Str::BytesNoNul,8); };
  bool u = w.usable(); std::string name; int ok = 0; bool done = false; 
  auto set = [&]( MV const & v ) { if ( u ) { w.top() = v; } done = true; };
  switch ( g.weighted({4,8,5,4,6,6,4,3,6,2,2,1}) ) {
  case 0: { std::string id = g.pick(IDS); name = "select "+quote(id); ok = g.coin() ? call("GC_new",[&]{ return GC_new(id.c_str()); }) : call("GC_select",[&]{ return GC_select(id.c_str()); }); c.check( ok == 0, name+" fails" ); reg(w,id); c.log(name); c.label("select"); same_all(w,name); return; }
  case 1: { // scalars
    MV v; switch ( g.below(6) ) {
    case 0: { static int const bs[] = { 0, 1, 2, -1, 256 }; int b = g.pick(bs); v = MV::Bool(b != 0); ok = call("GC_set_bool",[&]{ return GC_set_bool(b); }); break; }
    case 1: v = MV::Int(gen_i32(g)); ok = call("GC_set_int",[&]{ return GC_set_int(v.i); }); break;
    case 2: v = MV::Real(gen_double(g,o)); ok = call("GC_set_real",[&]{ return GC_set_real(v.r); }); break;
    case 3: { v = MV::Cplx(cplx(gen_double(g,o),gen_double(g,o))); c_complex_type z{v.c.real(),v.c.imag()}; ok = call("GC_set_complex",[&]{ return GC_set_complex(&z); }); break; }
    case 4: v = MV::Cplx(cplx(gen_double(g,o),gen_double(g,o))); ok = call("GC_set_complex2",[&]{ return GC_set_complex2(v.c.real(),v.c.imag()); }); break;
    default: v = MV::Str(S()); { std::string t = v.s; ok = call("GC_set_string",[&]{ return GC_set_string(t.c_str()); }); } }
    name = "set "+show(v); set(v); c.label("set"); break; }
  case 2: { // push
    MV v; MV before = u ? w.top() : MV(); bool want = true, any = false;
    switch ( g.below(5) ) { case 0: v = MV::Bool(g.coin()); break; case 1: v = MV::Int(gen_i32(g)); break; case 2: v = MV::Real(gen_double(g,o)); break; case 3: v = MV::Cplx(cplx(gen_double(g,o),gen_double(g,o))); break; default: v = MV::Str(S()); }
    char const * own = nullptr; if ( u && v.k == K::Str && g.coin() ) { own = before.k == K::Str ? GC_get_string() : before.k == K::VStr && !before.vs.empty() ? GC_get_string_at_pos(int(g.below(before.vs.size()))) : nullptr; if ( own ) v = MV::Str(own); }
    name = "push "+show(v);
    MV nw = before; if ( v.k == K::Bool && vwidth(before.k) < 0 && before.k != K::Vec ) { want = false; any = before.k == K::None; } else want = push(nw,v);
    bool two = g.coin();
    switch ( v.k ) { case K::Bool: ok = call("GC_push_bool",[&]{ return GC_push_bool(v.b ? 7 : 0); }); break; case K::Int: ok = call("GC_push_int",[&]{ return GC_push_int(v.i); }); break; case K::Real: ok = call("GC_push_real",[&]{ return GC_push_real(v.r); }); break;
      case K::Cplx: if ( two ) ok = call("GC_push_complex2",[&]{ return GC_push_complex2(v.c.real(),v.c.imag()); }); else { c_complex_type z{v.c.real(),v.c.imag()}; ok = call("GC_push_complex",[&]{ return GC_push_complex(&z); }); } break;
      default: ok = call("GC_push_string",[&]{ return GC_push_string(own ? own : v.s.c_str()); }); }
    if ( !u ) { c.check( ok != 0, name+" succeeds with nothing selected" ); break; }
    if ( any ) { w.top() = at(*(w.cur().p),w.cur().head).get_type() == GC_namespace::GC_type::NOTYPE ? MV() : read_checked(at(*(w.cur().p),w.cur().head),name); break; }
    c.check( (ok == 0) == want, name+" on "+show(before)+( ok == 0 ? " is accepted" : " is refused" ) ); if ( want ) { w.top() = nw; c.nontrivial = true; } c.label("push"); 
    c.log(name); same_all(w,name); return; }
  case 3: { // from arrays
    int n = g.few(0,4); MV v; if ( g.chance(1,10) ) { name = "negative size"; double d = 0; int i = 0; char const * s = "x"; switch ( g.below(6) ) { case 0: ok = call("GC_set_vector_of_bool",[&]{ return GC_set_vector_of_bool(&i,-1); }); break; case 1: ok = call("GC_set_vector_of_int",[&]{ return GC_set_vector_of_int(&i,-1); }); break; case 2: ok = call("GC_set_vector_of_real",[&]{ return GC_set_vector_of_real(&d,-1); }); break; case 3: ok = call("GC_set_vector_of_complex",[&]{ return GC_set_vector_of_complex(&d,&d,-1); }); break; case 4: ok = call("GC_set_vector_of_string",[&]{ return GC_set_vector_of_string(&s,-1); }); break; default: ok = call("GC_set_vector",[&]{ return GC_set_vector(-1); }); } c.check( ok != 0, "a vector of -1 elements is accepted" ); break; }
    switch ( g.below(5) ) {
    case 0: { v.k = K::VBool; std::vector<int> a; for ( int i = 0; i < n; ++i ) { int b = g.range(-1,2); a.push_back(b); v.vb.push_back(b != 0); } ok = call("GC_set_vector_of_bool",[&]{ return GC_set_vector_of_bool(a.data(),n); }); break; }
    case 1: { v.k = K::VInt; for ( int i = 0; i < n; ++i ) v.vi.push_back(gen_i32(g)); auto a = v.vi; ok = call("GC_set_vector_of_int",[&]{ return GC_set_vector_of_int(a.data(),n); }); break; }
    case 2: { v.k = K::VReal; for ( int i = 0; i < n; ++i ) v.vr.push_back(gen_double(g,o)); auto a = v.vr; ok = call("GC_set_vector_of_real",[&]{ return GC_set_vector_of_real(a.data(),n); }); break; }
    case 3: { v.k = K::VCplx; std::vector<double> re, im; for ( int i = 0; i < n; ++i ) { re.push_back(gen_double(g,o)); im.push_back(gen_double(g,o)); v.vc.push_back(cplx(re.back(),im.back())); } ok = call("GC_set_vector_of_complex",[&]{ return GC_set_vector_of_complex(re.data(),im.data(),n); }); break; }
    default: { v.k = K::VStr; std::vector<std::string> a; for ( int i = 0; i < n; ++i ) { a.push_back(S()); } v.vs = a; std::vector<char const *> p; for ( auto const & x : a ) p.push_back(x.c_str());
      if ( u && g.chance(1,3) ) { MV const & z = w.top(); size_t have = z.k == K::Str ? 1 : z.k == K::VStr ? z.vs.size() : 0; for ( int i = 0; have && i < n; ++i ) if ( g.coin() ) { int e = int(g.below(have)); char const * s = z.k == K::Str ? GC_get_string() : GC_get_string_at_pos(e); if ( s ) { p[size_t(i)] = s; v.vs[size_t(i)] = s; c.label("strings of the container itself"); } } }
      ok = call("GC_set_vector_of_string",[&]{ return GC_set_vector_of_string(p.data(),n); }); } }
    name = "set "+show(v); set(v); c.label("set array"); break; }
  case 4: { // empty collections
    MV v; switch ( g.below(8) ) { case 0: v.k = K::VBool; ok = call("empty",[&]{ return GC_set_empty_vector_of_bool(); }); break; case 1: v.k = K::VInt; ok = call("empty",[&]{ return GC_set_empty_vector_of_int(); }); break; case 2: v.k = K::VReal; ok = call("empty",[&]{ return GC_set_empty_vector_of_real(); }); break;
      case 3: v.k = K::VCplx; ok = call("empty",[&]{ return GC_set_empty_vector_of_complex(); }); break; case 4: v.k = K::VStr; ok = call("empty",[&]{ return GC_set_empty_vector_of_string(); }); break; case 5: v.k = K::Vec; ok = call("empty",[&]{ return GC_set_empty_vector(); }); break;
      case 6: { v.k = K::Vec; int n = g.range(0,4); v.v.resize(size_t(n)); ok = call("GC_set_vector",[&]{ return GC_set_vector(n); }); break; } default: v.k = K::Map; ok = call("GC_set_map",[&]{ return GC_set_map(); }); }
    name = "set "+show(v); set(v); c.label("set empty"); break; }
  case 5: { // down
    MV const * m = u ? &w.top() : nullptr;
    if ( m && m->k == K::Vec && !m->v.empty() ) { int p = g.chance(1,10) ? -1 : int(g.below(m->v.size())); name = "down to "+std::to_string(p); ok = call("GC_push_vector_position",[&]{ return GC_push_vector_position(p); }); c.check( (ok == 0) == (p >= 0), name+" of "+show(*m)+" returns "+std::to_string(ok) ); if ( p >= 0 ) { w.cur().head.push_back({false,unsigned(p),""}); c.label("down"); } }
    else if ( m && m->k == K::Map ) { std::string k; if ( !m->m.empty() && g.coin() ) k = std::next(m->m.begin(),long(g.below(m->m.size())))->first; else k = g.coin() ? S() : std::string(g.pick(IDS)); k = cstr(k); name = "down to "+quote(k); ok = call("GC_push_map_position",[&]{ return GC_push_map_position(k.c_str()); }); c.check( ok == 0, name+" fails" ); w.top().m[k]; w.cur().head.push_back({true,0,k}); c.label("down"); }
    else { name = "down where there is nothing"; ok = g.coin() ? call("GC_push_map_position",[&]{ return GC_push_map_position("k"); }) : m && m->k == K::Vec ? 1 : call("GC_push_vector_position",[&]{ return GC_push_vector_position(0); }); c.check( ok != 0, "going down into what is no list or map succeeds" ); }
    break; }
  case 6: { name = "up"; ok = call("GC_pop_head",[&]{ return GC_pop_head(); }); if ( !u ) { c.check( ok != 0, "GC_pop_head succeeds with nothing selected" ); break; } 
    if ( w.cur().head.empty() ) { if ( ok == 0 ) { w.cur().empty = true; c.label("root removed"); } } else { c.check( ok == 0, "GC_pop_head fails" ); w.cur().head.pop_back(); } break; }
  case 7: { name = "reset"; ok = call("GC_reset_head",[&]{ return GC_reset_head(); }); c.check( (ok == 0) == w.active, "GC_reset_head returns "+std::to_string(ok) ); if ( w.active ) { w.cur().head.clear(); w.cur().empty = false; } break; }
  case 8: getters(g,w); keys(g,w); if ( g.chance(1,6) ) { ok = call("GC_dump",[&]{ return GC_dump(); }); c.check( (ok == 0) == u, "GC_dump returns "+std::to_string(ok) ); ok = call("GC_print_content_types",[&]{ return GC_print_content_types(); }); c.check( (ok == 0) == u, "GC_print_content_types returns "+std::to_string(ok) ); } name = "read"; break;
  case 9: { std::string id = g.pick(IDS); name = "delete "+quote(id); ok = call("GC_delete",[&]{ return GC_delete(id.c_str()); }); w.all.erase(id); if ( w.active && w.act == id ) w.active = false; c.label("delete"); break; }
  case 10: if ( w.active ) { // contents stored from C++
    name = "store from C++"; GC * p = w.cur().p; MV v = gen(g,o); w.cur().root = v; build_varied(g,*p,v); w.cur().head.clear(); w.cur().empty = false; call("GC_reset_head",[&]{ return GC_reset_head(); }); c.label("store from C++"); name += " "+show(v); break; } // fall through
  default: { std::string id = g.pick(IDS); name = "fill "+quote(id); GC_select(id.c_str()); reg(w,id); MV & r = w.all[id].root; GC * p = w.all[id].p; if ( g.coin() ) { GC_reset_head(); p->clear(); } ok = call("GC_fill_for_test",[&]{ return GC_fill_for_test(id.c_str()); }); c.check( ok == 0, "GC_fill_for_test fails" ); call("GC_get_type",[&]{ return GC_get_type(); }); GC_reset_head(); w.act = id; w.active = true; w.cur().head.clear(); w.cur().empty = false; r = read_checked(*p,name); c.label("fill"); }
  }
  c.log(name+( ok ? " ("+std::to_string(ok)+")" : "" ));
  if ( done ) { c.check( (ok == 0) == u, name+( u ? " fails" : " succeeds with nothing selected" ) ); if ( u ) c.nontrivial = true; }
  same_all(w,name);
}
static void one( Src & g, Ctx & c ) {
  for ( auto id : IDS ) GC_delete(id); // nothing is left of the previous case
  World w{c,{},"",false};
  int n = g.range(3,24);
  for ( int i = 0; i < n; ++i ) { if ( i == 0 && g.chance(7,8) ) { std::string id = g.pick(IDS); GC_new(id.c_str()); reg(w,id); } step(g,w); }
  if ( w.active ) getters(g,w);
  for ( auto id : IDS ) GC_delete(id);
}
} // namespace pt
using namespace pt;
int main( int argc, char ** argv ) {
  Property p; p.id = "C16"; p.one = one; p.init = quiet;
  p.rule = "histories of 3 to 24 calls of the C interface over four named containers (select, delete, store, append, move the head down, up and beyond the root, reset, read everything including wrong kinds and positions, visit the keys), mixed with contents stored from C++; after every call the return code and the contents of all containers are compared with a model. Unspecified: values returned by getters of another kind, positions beyond the end of a list, GC_push_bool on an empty element, leaving the root. Non-trivial: at least one store.";
  return pt_main(argc,argv,p);
}

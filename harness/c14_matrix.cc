// C14: matrix elements are where they were put, whichever way they are reached; conversions to matrices keep them.
#include "promo.hh"
namespace pt {
using namespace GC_namespace;

template <class X> struct M { unsigned nr{0}, nc{0}; std::vector<X> a; X & at( unsigned i, unsigned j ) { return a[size_t(j)*nr+i]; } };
template <class X> X gen_el( Src & g );
template <> int32_t gen_el( Src & g ) { return gen_i32(g); }
template <> int64_t gen_el( Src & g ) { return gen_i64(g); }
template <> double gen_el( Src & g ) { GenOpt o; return gen_double(g,o); }
template <> cplx gen_el( Src & g ) { GenOpt o; double re = gen_double(g,o); return cplx(re,gen_double(g,o)); }
template <class X> struct A; // the accessors of each kind
#define ACC(X,NAME) template <> struct A<X> { static mat_type<X> & set( GC & g, unsigned r, unsigned c ) { return g.set_mat_##NAME(r,c); } static mat_type<X> & mset( GC & g, mat_type<X> const & m ) { return g.set_mat_##NAME(m); } \
  static mat_type<X> & get( GC & g ) { return g.get_mat_##NAME("w"); } static mat_type<X> const & cget( GC const & g ) { return g.get_mat_##NAME("w"); } \
  static X & at( GC & g, unsigned i, unsigned j ) { return g.get_##NAME##_at(i,j); } static X const & cat( GC const & g, unsigned i, unsigned j ) { return g.get_##NAME##_at(i,j,"w"); } static X * ptr( GC & g ) { return g.get_##NAME##_pointer(); } static X const * cptr( GC const & g ) { return g.get_##NAME##_pointer(); } };
ACC(int32_t,int) ACC(int64_t,long) ACC(double,real) ACC(cplx,complex)

static unsigned gen_dim( Src & g ) { if ( g.chance(1,60) ) return unsigned(g.below(80)); return unsigned( g.chance(1,6) ? g.below(12) : g.below(5) ); }
static unsigned gen_out( Src & g, unsigned n ) { switch ( g.below(4) ) { case 0: return n; case 1: return n+1+unsigned(g.below(5)); case 2: return 0x80000000u; default: return 0xFFFFFFFFu - unsigned(g.below(2)); } }

template <class X> static void check_all( Src & g, Ctx & c, GC & gc, M<X> & m ) {
  GC const & k = gc; mat_type<X> const & t = A<X>::cget(k);
  c.check( t.num_rows() == m.nr && t.numRows() == m.nr && t.num_cols() == m.nc && t.numCols() == m.nc && t.size() == m.a.size(), "shape is "+std::to_string(t.num_rows())+"x"+std::to_string(t.num_cols())+" with "+std::to_string(t.size())+" elements" );
  c.check( k.num_rows() == m.nr && k.num_cols() == m.nc && k.get_num_elements() == m.nr*m.nc, "shape reported by the container" );
  X const * p = A<X>::cptr(k);
  for ( unsigned j = 0; j < m.nc; ++j ) for ( unsigned i = 0; i < m.nr; ++i ) {
    X x = m.at(i,j); 
    c.check( eqv(t(i,j),x) && eqv(A<X>::cat(k,i,j),x) && eqv(p[size_t(j)*m.nr+i],x) && eqv(t[size_t(j)*m.nr+i],x), "element "+std::to_string(i)+","+std::to_string(j)+" of "+std::to_string(m.nr)+"x"+std::to_string(m.nc) );
  }
  // rows and columns, in vectors with old contents and in exact arrays
  for ( unsigned j = 0; j < m.nc; ++j ) {
    std::vector<X> C(g.below(8)); if ( g.coin() ) t.get_column(j,C); else t.getColumn(j,C);
    std::vector<X> D(m.nr); if ( m.nr ) { if ( g.coin() ) t.get_column(j,D.data()); else t.getColumn(j,D.data()); }
    c.check( C.size() == m.nr, "column "+std::to_string(j)+" has "+std::to_string(C.size())+" elements of "+std::to_string(m.nr) );
    for ( unsigned i = 0; i < m.nr; ++i ) c.check( eqv(C[i],m.at(i,j)) && eqv(D[i],m.at(i,j)), "column "+std::to_string(j)+" element "+std::to_string(i) );
  }
  for ( unsigned i = 0; i < m.nr; ++i ) {
    std::vector<X> R(g.below(8)); if ( g.coin() ) t.get_row(i,R); else t.getRow(i,R);
    std::vector<X> S(m.nc); if ( m.nc ) { if ( g.coin() ) t.get_row(i,S.data()); else t.getRow(i,S.data()); }
    c.check( R.size() == m.nc, "row "+std::to_string(i)+" has "+std::to_string(R.size())+" elements of "+std::to_string(m.nc) );
    for ( unsigned j = 0; j < m.nc; ++j ) c.check( eqv(R[j],m.at(i,j)) && eqv(S[j],m.at(i,j)), "row "+std::to_string(i)+" element "+std::to_string(j) );
  }
}
template <class X> static void refused( Src & g, Ctx & c, GC & gc, M<X> & m ) {
  GC const & k = gc; mat_type<X> const & t = A<X>::cget(k);
  unsigned i = g.coin() || !m.nr ? gen_out(g,m.nr) : unsigned(g.below(m.nr)), j = i >= m.nr && g.coin() && m.nc ? unsigned(g.below(m.nc)) : gen_out(g,m.nc);
  std::string w = "("+std::to_string(i)+","+std::to_string(j)+") of "+std::to_string(m.nr)+"x"+std::to_string(m.nc); c.log("refuse "+w);
  c.check( throws([&]{ (void)t(i,j); }), "const element "+w+" is accepted" );
  c.check( throws([&]{ (void)A<X>::get(gc)(i,j); }), "element "+w+" is accepted" );
  c.check( throws([&]{ (void)A<X>::cat(k,i,j); }), "const get_at "+w+" is accepted" );
  c.check( throws([&]{ (void)A<X>::at(gc,i,j); }), "get_at "+w+" is accepted" );
  std::vector<X> v; std::vector<X> big(size_t(std::max(m.nr,m.nc))+1);
  if ( i >= m.nr ) { c.check( throws([&]{ t.get_row(i,v); }), "row "+std::to_string(i)+" of "+w+" is accepted" ); c.check( throws([&]{ t.get_row(i,big.data()); }), "row pointer "+std::to_string(i)+" of "+w+" is accepted" ); }
  if ( j >= m.nc ) { c.check( throws([&]{ t.get_column(j,v); }), "column "+std::to_string(j)+" of "+w+" is accepted" ); c.check( throws([&]{ t.get_column(j,big.data()); }), "column pointer "+std::to_string(j)+" of "+w+" is accepted" ); }
}
template <class X> static void history( Src & g, Ctx & c ) {
  GC gc; M<X> m; 
  auto fresh = [&]{
    unsigned r = gen_dim(g), q = gen_dim(g); c.log("shape "+std::to_string(r)+"x"+std::to_string(q));
    M<X> n; n.nr = r; n.nc = q; for ( size_t i = 0; i < size_t(r)*q; ++i ) n.a.push_back(gen_el<X>(g));
    unsigned how = unsigned(g.below(5));
    if ( how == 0 && !( r && q ) ) how = 2;
    switch ( how ) {
    case 0: { gc.clear(); A<X>::at(gc,r-1,q-1) = n.at(r-1,q-1); for ( unsigned i = 0; i < r; ++i ) for ( unsigned j = 0; j < q; ++j ) A<X>::at(gc,i,j) = n.at(i,j); c.log("by elements of an empty container"); break; }
    case 1: { auto & t = A<X>::set(gc,r,q); c.check( t.num_rows() == r && t.num_cols() == q, "the matrix just set is "+std::to_string(t.num_rows())+"x"+std::to_string(t.num_cols()) ); for ( unsigned i = 0; i < r; ++i ) for ( unsigned j = 0; j < q; ++j ) t(i,j) = n.at(i,j); c.log("by (i,j)"); break; }
    case 2: { mat_type<X> t(r,q); if ( n.a.size() ) std::copy(n.a.begin(),n.a.end(),t.data()); A<X>::mset(gc,t); c.log("by copy of data"); break; }
    case 3: { mat_type<X> t; t.resize(gen_dim(g),gen_dim(g)); t.resize(r,q); for ( size_t i = 0; i < n.a.size(); ++i ) t[i] = n.a[i]; gc = t; c.log("by resize"); break; }
    default: { A<X>::set(gc,r,q); X * p = A<X>::ptr(gc); for ( size_t i = 0; i < n.a.size(); ++i ) p[i] = n.a[i]; c.log("by pointer"); }
    }
    m = n;
  };
  fresh(); check_all<X>(g,c,gc,m);
  int steps = g.range(1,6);
  for ( int s = 0; s < steps; ++s ) {
    switch ( g.weighted({5,2,3,1}) ) {
    case 0: { if ( m.a.empty() ) break; unsigned i = unsigned(g.below(m.nr)), j = unsigned(g.below(m.nc)); X x = gen_el<X>(g); m.at(i,j) = x; c.log("store at "+std::to_string(i)+","+std::to_string(j));
      switch ( g.below(4) ) { case 0: A<X>::get(gc)(i,j) = x; break; case 1: A<X>::at(gc,i,j) = x; break; case 2: A<X>::ptr(gc)[size_t(j)*m.nr+i] = x; break; default: A<X>::get(gc)[size_t(j)*m.nr+i] = x; }
      break; }
    case 1: fresh(); break;
    case 2: refused<X>(g,c,gc,m); break;
    default: { GC t(gc); GC u; u["m"] = t; gc = u["m"]; }
    }
    check_all<X>(g,c,gc,m);
  }
  c.nontrivial = m.nr > 1 && m.nc > 1;
}

// copies into matrices of any width
template <class X, class F> static void copies( Ctx & c, GC const & k, MV const & a, int w, F && f, X mark ) {
  mat_type<X> t(2,3); for ( auto & x : t ) x = mark; bool threw = false; std::string msg;
  try { f(t); } catch ( std::exception const & e ) { threw = true; msg = e.what(); }
  std::string nm = "copy to a matrix of width "+std::to_string(w)+" of "+show(a);
  M<X> want; bool ok = true, any = false;
  { mat_type<X> e; bool th = throws([&]{ f(e); }); c.check( th == threw && ( th || ( e.num_rows() == t.num_rows() && e.num_cols() == t.num_cols() && e.size() == t.size() ) ), nm+" depends on what the matrix held" ); }
  if ( a.k == K::None ) { // nothing, or zeros
    bool zero = t.size() == size_t(t.num_rows())*t.num_cols(); for ( auto const & x : t ) zero = zero && x == X(0);
    c.check( threw || zero, nm+" gives "+std::to_string(t.num_rows())+"x"+std::to_string(t.num_cols())+" with "+std::to_string(t.size())+" elements" ); return;
  }
  if ( a.k == K::Vec ) {
    if ( a.v.empty() ) ok = false;
    else {
      want.nr = unsigned(a.v[0].count()); want.nc = unsigned(a.v.size());
      for ( auto const & col : a.v ) {
        if ( col.count() != want.nr ) { ok = false; break; }
        std::vector<MV> e; if ( !elements(col,e) ) { if ( col.count() ) { ok = false; break; } continue; }
        for ( auto const & x : e ) { X v{}; Cv r = conv(x,v); if ( col.k == K::Vec && x.k == K::Cplx && w == 3 && r == Cv::Yes ) r = Cv::Any; if ( r == Cv::No ) ok = false; else if ( r == Cv::Any ) any = true; want.a.push_back(v); }
        if ( !ok ) break;
      }
    }
  } else {
    MV b = a; ok = promote_mat(b,w);
    if ( ok ) { want.nr = b.nr; want.nc = b.nc; std::vector<MV> e; elements(b,e); for ( auto const & x : e ) { X v{}; conv(x,v); want.a.push_back(v); } }
    // narrowing copies may be refused or exact
    if ( !ok ) { std::vector<MV> e; if ( a.k != K::Map && elements(a,e) ) { bool fits = true; for ( auto const & x : e ) { X v{}; if ( conv(x,v) != Cv::Yes ) fits = false; } if ( fits ) any = true; } }
  }
  if ( !ok && !any ) { c.check( threw, nm+" is accepted" ); return; }
  if ( any ) return;
  c.check( !threw, nm+" throws "+msg );
  c.check( t.num_rows() == want.nr && t.num_cols() == want.nc && t.size() == want.a.size(), nm+" has shape "+std::to_string(t.num_rows())+"x"+std::to_string(t.num_cols()) );
  for ( size_t i = 0; i < want.a.size(); ++i ) c.check( eqv(t[i],want.a[i]), nm+" element "+std::to_string(i) );
}
static MV gen_source( Src & g ) {
  GenOpt o; o.max_depth = 1; o.max_len = 4;
  switch ( g.below(4) ) {
  case 0: return gen(g,o);
  case 1: return gen_kind(g,g.pick(std::vector<K>{K::VBool,K::VInt,K::VLong,K::VReal,K::VCplx,K::MInt,K::MLong,K::MReal,K::MCplx}),o);
  case 2: return gen_number(g);
  default: { // columns
    MV a(K::Vec); unsigned n = unsigned(g.few(0,4)), m = unsigned(g.few(0,3)); int top = g.range(0,4);
    for ( unsigned j = 0; j < n; ++j ) {
      if ( g.chance(1,15) ) { a.v.push_back(gen(g,o,1)); continue; }
      int w = g.range(0,top); bool list = g.chance(1,3); MV v(list?K::Vec:VK[w]); unsigned q = m + ( g.chance(1,20) ? 1 : 0 );
      for ( unsigned i = 0; i < q; ++i ) { MV x = gen_number(g); if ( g.coin() ) x = MV::Int(g.range(-9,9)); if ( swidth(x.k) > w ) x = zero(w); append(v,list ? x : widen(x,w)); }
      if ( m == 1 && g.chance(1,4) ) a.v.push_back(gen_number(g)); else a.v.push_back(v);
    }
    return a; }
  }
}
static void one( Src & g, Ctx & c ) {
  if ( g.coin() ) {
    switch ( g.below(4) ) { case 0: c.label("int history"); history<int32_t>(g,c); break; case 1: c.label("long history"); history<int64_t>(g,c); break; case 2: c.label("real history"); history<double>(g,c); break; default: c.label("complex history"); history<cplx>(g,c); }
    return;
  }
  MV a = gen_source(g); GC gc; build_varied(g,gc,a); GC const & k = gc; c.log("value "+show(a)); c.label(std::string("copy from ")+kname(a.k));
  copies<int32_t>(c,k,a,1,[&]( auto & t ) { k.copyto_mat_int(t,"w"); },5);
  copies<int64_t>(c,k,a,2,[&]( auto & t ) { k.copyto_mat_long(t,"w"); },5);
  copies<double>(c,k,a,3,[&]( auto & t ) { k.copyto_mat_real(t,"w"); },5.5);
  copies<cplx>(c,k,a,4,[&]( auto & t ) { k.copyto_mat_complex(t,"w"); },cplx(5,6));
  c.nontrivial = a.count() > 0;
  std::string d = diff(a,read_checked(gc,"after copies")); c.check( d.empty(), "copies changed the container: "+d );
}
} // namespace pt
using namespace pt;
int main( int argc, char ** argv ) {
  Property p; p.id = "C14"; p.one = one;
  p.rule = "half of the cases are histories on one matrix of each element type (shaped and filled in five ways, elements stored in four) with every element read back in eight ways (by index, flat, by row, by column, by pointer) and indices outside refused; the other half copies numbers, vectors, matrices and lists of columns into matrices of each type against a reference. Non-trivial: at least 2x2, or a non-empty source.";
  return pt_main(argc,argv,p);
}

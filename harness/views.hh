// Every way of looking at a stored value must agree with the model.
#pragma once
#include "model.hh"
namespace pt {

inline unsigned model_elems( MV const & a ) { return unsigned(a.count()); }
inline unsigned model_rows( MV const & a ) {
  switch ( a.k ) { case K::None: return 0; case K::MInt: case K::MLong: case K::MReal: case K::MCplx: return a.nr; default: return 1; }
}
inline unsigned model_cols( MV const & a ) {
  switch ( a.k ) { case K::None: return 0; case K::MInt: case K::MLong: case K::MReal: case K::MCplx: return a.nc; default: return unsigned(a.count()); }
}
inline bool cx_same( cplx a, cplx b ) { return same_double(a.real(),b.real()) && same_double(a.imag(),b.imag()); }
inline bool is_num( K k ) { return k == K::Bool || k == K::Int || k == K::Long || k == K::Real; }
inline double num( MV const & a ) { switch ( a.k ) { case K::Bool: return a.b; case K::Int: return a.i; case K::Long: return double(a.l); default: return a.r; } }

// read-only look at one node (not its children)
inline void views_const( Ctx & c, GC const & gc, MV const & a ) {
  std::string w = std::string(kname(a.k))+": ";
  c.check( gc.get_type() == to_gct(a.k), w+"kind reported differs" );
  static char const * const names[NKIND] = { "NOTYPE","pointer","bool_type","int_type","long_type","real_type","complex_type","string_type","vec_pointer_type","vec_bool_type","vec_int_type","vec_long_type","vec_real_type","vec_complex_type","vec_string_type","mat_int_type","mat_long_type","mat_real_type","mat_complex_type","vector_type","map_type" };
  c.check( gc.get_type_name() == names[int(a.k)], w+"kind name differs" );
  c.check( gc.get_type_name() == GC_namespace::to_string(to_gct(a.k)), w+"kind name differs" );
  c.check( gc.get_num_elements() == model_elems(a), w+"get_num_elements is "+std::to_string(gc.get_num_elements())+", stored "+std::to_string(model_elems(a)) );
  c.check( gc.num_rows() == model_rows(a) && gc.get_numRows() == model_rows(a), w+"num_rows is "+std::to_string(gc.num_rows()) );
  c.check( gc.num_cols() == model_cols(a) && gc.get_numCols() == model_cols(a), w+"num_cols is "+std::to_string(gc.num_cols()) );
  size_t n = a.count();
  switch ( a.k ) {
  case K::None: break;
  case K::Ptr: c.check( gc.get_pvoid() == a.p && gc.get_pointer<char*>() == (char*)a.p && *gc.get_ppvoid() == a.p, w+"pointer views disagree" ); break;
  case K::Bool: break;
  case K::Int: c.check( *gc.get_int_pointer() == a.i, w+"get_int_pointer" ); break;
  case K::Long: c.check( *gc.get_long_pointer() == a.l, w+"get_long_pointer" ); break;
  case K::Real: c.check( same_double(*gc.get_real_pointer(),a.r), w+"get_real_pointer" ); break;
  case K::Cplx: c.check( cx_same(*gc.get_complex_pointer(),a.c), w+"get_complex_pointer" ); break;
  case K::Str: break;
  case K::VPtr: break;
  case K::VBool: for ( unsigned i = 0; i < n; ++i ) c.check( gc.get_bool_at(i,"") == a.vb[i] && gc.get_number_at(i) == double(a.vb[i]), w+"element "+std::to_string(i) ); break;
  case K::VInt: case K::MInt: {
    int32_t const * p = gc.get_int_pointer();
    for ( unsigned i = 0; i < n; ++i ) c.check( p[i] == a.vi[i] && gc.get_number_at(i) == a.vi[i] && cx_same(gc.get_complex_number_at(i),cplx(a.vi[i],0)), w+"element "+std::to_string(i) );
    if ( a.k == K::VInt ) for ( unsigned i = 0; i < n; ++i ) c.check( gc.get_int_at(i,"") == a.vi[i], w+"get_int_at "+std::to_string(i) );
    else for ( unsigned i = 0; i < a.nr; ++i ) for ( unsigned j = 0; j < a.nc; ++j ) c.check( gc.get_int_at(i,j,"") == a.vi[size_t(j)*a.nr+i], w+"get_int_at "+std::to_string(i)+","+std::to_string(j) );
    break; }
  case K::VLong: case K::MLong: {
    int64_t const * p = gc.get_long_pointer();
    for ( unsigned i = 0; i < n; ++i ) c.check( p[i] == a.vl[i] && gc.get_number_at(i) == double(a.vl[i]) && cx_same(gc.get_complex_number_at(i),cplx(double(a.vl[i]),0)), w+"element "+std::to_string(i) );
    if ( a.k == K::VLong ) for ( unsigned i = 0; i < n; ++i ) c.check( gc.get_long_at(i,"") == a.vl[i], w+"get_long_at "+std::to_string(i) );
    else for ( unsigned i = 0; i < a.nr; ++i ) for ( unsigned j = 0; j < a.nc; ++j ) c.check( gc.get_long_at(i,j,"") == a.vl[size_t(j)*a.nr+i], w+"get_long_at "+std::to_string(i)+","+std::to_string(j) );
    break; }
  case K::VReal: case K::MReal: {
    double const * p = gc.get_real_pointer();
    for ( unsigned i = 0; i < n; ++i ) c.check( same_double(p[i],a.vr[i]) && same_double(gc.get_number_at(i),a.vr[i]) && cx_same(gc.get_complex_number_at(i),cplx(a.vr[i],0)), w+"element "+std::to_string(i) );
    if ( a.k == K::VReal ) for ( unsigned i = 0; i < n; ++i ) c.check( same_double(gc.get_real_at(i,""),a.vr[i]), w+"get_real_at "+std::to_string(i) );
    else for ( unsigned i = 0; i < a.nr; ++i ) for ( unsigned j = 0; j < a.nc; ++j ) c.check( same_double(gc.get_real_at(i,j,""),a.vr[size_t(j)*a.nr+i]), w+"get_real_at "+std::to_string(i)+","+std::to_string(j) );
    break; }
  case K::VCplx: case K::MCplx: {
    cplx const * p = gc.get_complex_pointer();
    for ( unsigned i = 0; i < n; ++i ) { double re, im; gc.get_complex_number_at(i,re,im); c.check( cx_same(p[i],a.vc[i]) && cx_same(gc.get_complex_number_at(i),a.vc[i]) && cx_same(cplx(re,im),a.vc[i]), w+"element "+std::to_string(i) ); }
    if ( a.k == K::VCplx ) for ( unsigned i = 0; i < n; ++i ) c.check( cx_same(gc.get_complex_at(i,""),a.vc[i]), w+"get_complex_at "+std::to_string(i) );
    else for ( unsigned i = 0; i < a.nr; ++i ) for ( unsigned j = 0; j < a.nc; ++j ) c.check( cx_same(gc.get_complex_at(i,j,""),a.vc[size_t(j)*a.nr+i]), w+"get_complex_at "+std::to_string(i)+","+std::to_string(j) );
    break; }
  case K::VStr: for ( unsigned i = 0; i < n; ++i ) c.check( gc.get_string_at(i,"") == a.vs[i], w+"get_string_at "+std::to_string(i) ); break;
  case K::Vec:
    for ( unsigned i = 0; i < n; ++i ) {
      GC const * e = &gc.get_vector()[i];
      c.check( &gc[i] == e && &gc(i) == e && &gc.get_gc_at(i,"") == e, w+"element "+std::to_string(i)+" differs between accessors" );
      if ( is_num(a.v[i].k) ) c.check( same_double(gc.get_number_at(i),num(a.v[i])), w+"get_number_at "+std::to_string(i) );
      if ( a.v[i].k == K::Cplx ) c.check( cx_same(gc.get_complex_number_at(i),a.v[i].c), w+"get_complex_number_at "+std::to_string(i) );
      if ( a.v[i].k == K::Ptr ) c.check( gc.get_pointer_at<void*>(i) == a.v[i].p, w+"get_pointer_at "+std::to_string(i) );
    }
    break;
  case K::Map: {
    GC_namespace::vec_string_type ks; ks.push_back("stale"); gc.get_keys(ks);
    std::vector<std::string> mk; std::string joined;
    for ( auto const & e : a.m ) { mk.push_back(e.first); if ( mk.size() > 1 ) joined += ", "; joined += e.first; }
    c.check( ks == mk, w+"get_keys" );
    c.check( gc.get_keys() == joined, w+"get_keys() as a string" );
    for ( auto const & e : a.m ) {
      GC const * x = &gc.get_map().at(e.first);
      c.check( gc.exists(e.first) && &gc[e.first] == x && &gc(e.first) == x, w+"key "+quote(e.first)+" differs between accessors" );
    }
    break; }
  }
}
inline void views_tree( Ctx & c, GC const & gc, MV const & a ) {
  views_const(c,gc,a);
  if ( a.k == K::Vec ) for ( unsigned i = 0; i < a.v.size(); ++i ) views_tree(c,gc(i),a.v[i]);
  if ( a.k == K::Map ) for ( auto const & e : a.m ) views_tree(c,gc(e.first),e.second);
}
// the non-const accessors of the stored kind refer to the same value
inline void views_mut( Ctx & c, GC & gc, MV const & a ) {
  std::string w = std::string(kname(a.k))+": non-const accessor ";
  GC const & k = gc;
  switch ( a.k ) {
  case K::None: break;
  case K::Ptr: c.check( gc.get_pointer<void*>() == a.p, w ); break;
  case K::Bool: c.check( &gc.get_bool() == &k.get_bool(), w+"get_bool" ); break;
  case K::Int: c.check( &gc.get_int() == &k.get_int() && gc.get_int_pointer() == &k.get_int(), w+"get_int" ); break;
  case K::Long: c.check( &gc.get_long() == &k.get_long() && gc.get_long_pointer() == &k.get_long(), w+"get_long" ); break;
  case K::Real: c.check( &gc.get_real() == &k.get_real() && gc.get_real_pointer() == &k.get_real(), w+"get_real" ); break;
  case K::Cplx: c.check( &gc.get_complex() == &k.get_complex() && gc.get_complex_pointer() == &k.get_complex(), w+"get_complex" ); break;
  case K::Str: c.check( gc.get_string().data() == k.get_string().data() && gc.get_string().size() == k.get_string().size(), w+"get_string" ); break;
  case K::VPtr: c.check( &gc.get_vec_pointer() == &k.get_vec_pointer(), w+"get_vec_pointer" ); break;
  case K::VBool: c.check( &gc.get_vec_bool() == &k.get_vec_bool(), w+"get_vec_bool" ); for ( unsigned i = 0; i < a.vb.size(); ++i ) c.check( gc.get_bool_at(i) == a.vb[i], w+"get_bool_at" ); break;
  case K::VInt: c.check( &gc.get_vec_int() == &k.get_vec_int(), w+"get_vec_int" ); for ( unsigned i = 0; i < a.vi.size(); ++i ) c.check( &gc.get_int_at(i) == &k.get_int_at(i,""), w+"get_int_at" ); break;
  case K::VLong: c.check( &gc.get_vec_long() == &k.get_vec_long(), w+"get_vec_long" ); for ( unsigned i = 0; i < a.vl.size(); ++i ) c.check( &gc.get_long_at(i) == &k.get_long_at(i,""), w+"get_long_at" ); break;
  case K::VReal: c.check( &gc.get_vec_real() == &k.get_vec_real(), w+"get_vec_real" ); for ( unsigned i = 0; i < a.vr.size(); ++i ) c.check( &gc.get_real_at(i) == &k.get_real_at(i,""), w+"get_real_at" ); break;
  case K::VCplx: c.check( &gc.get_vec_complex() == &k.get_vec_complex(), w+"get_vec_complex" ); for ( unsigned i = 0; i < a.vc.size(); ++i ) c.check( &gc.get_complex_at(i) == &k.get_complex_at(i,""), w+"get_complex_at" ); break;
  case K::VStr: c.check( &gc.get_vec_string() == &k.get_vec_string(), w+"get_vec_string" ); for ( unsigned i = 0; i < a.vs.size(); ++i ) c.check( gc.get_string_at(i) == k.get_string_at(i,""), w+"get_string_at" ); break;
  case K::MInt: c.check( &gc.get_mat_int() == &k.get_mat_int(), w+"get_mat_int" ); for ( unsigned i = 0; i < a.nr; ++i ) for ( unsigned j = 0; j < a.nc; ++j ) c.check( &gc.get_int_at(i,j) == &k.get_int_at(i,j,""), w+"get_int_at(i,j)" ); break;
  case K::MLong: c.check( &gc.get_mat_long() == &k.get_mat_long(), w+"get_mat_long" ); for ( unsigned i = 0; i < a.nr; ++i ) for ( unsigned j = 0; j < a.nc; ++j ) c.check( &gc.get_long_at(i,j) == &k.get_long_at(i,j,""), w+"get_long_at(i,j)" ); break;
  case K::MReal: c.check( &gc.get_mat_real() == &k.get_mat_real(), w+"get_mat_real" ); for ( unsigned i = 0; i < a.nr; ++i ) for ( unsigned j = 0; j < a.nc; ++j ) c.check( &gc.get_real_at(i,j) == &k.get_real_at(i,j,""), w+"get_real_at(i,j)" ); break;
  case K::MCplx: c.check( &gc.get_mat_complex() == &k.get_mat_complex(), w+"get_mat_complex" ); for ( unsigned i = 0; i < a.nr; ++i ) for ( unsigned j = 0; j < a.nc; ++j ) c.check( &gc.get_complex_at(i,j) == &k.get_complex_at(i,j,""), w+"get_complex_at(i,j)" ); break;
  case K::Vec:
    c.check( &gc.get_vector() == &k.get_vector(), w+"get_vector" );
    for ( unsigned i = 0; i < a.v.size(); ++i ) {
      GC const * e = &k(i); MV const & x = a.v[i];
      c.check( &gc[i] == e && &gc(i) == e && &gc.get_gc_at(i) == e, w+"element" );
      switch ( x.k ) {
      case K::Bool: c.check( gc.get_bool_at(i) == x.b, w+"get_bool_at in a list" ); break;
      case K::Int: c.check( gc.get_int_at(i) == x.i, w+"get_int_at in a list" ); break;
      case K::Long: c.check( gc.get_long_at(i) == x.l, w+"get_long_at in a list" ); break;
      case K::Real: c.check( same_double(gc.get_real_at(i),x.r), w+"get_real_at in a list" ); break;
      case K::Cplx: c.check( cx_same(gc.get_complex_at(i),x.c), w+"get_complex_at in a list" ); break;
      case K::Str: c.check( gc.get_string_at(i) == x.s, w+"get_string_at in a list" ); break;
      case K::Ptr: c.check( gc.get_pointer_at<void*>(i) == x.p, w+"get_pointer_at in a list" ); break;
      default: break;
      }
    }
    break;
  case K::Map: c.check( &gc.get_map() == &k.get_map(), w+"get_map" ); for ( auto const & e : a.m ) c.check( &gc[e.first] == &k(e.first) && &gc(e.first) == &k(e.first), w+"key" ); break;
  }
}
inline void views_mut_tree( Ctx & c, GC & gc, MV const & a ) {
  views_mut(c,gc,a);
  if ( a.k == K::Vec ) for ( unsigned i = 0; i < a.v.size(); ++i ) views_mut_tree(c,gc(i),a.v[i]);
  if ( a.k == K::Map ) for ( auto const & e : a.m ) views_mut_tree(c,gc(e.first),e.second);
}

} // namespace pt

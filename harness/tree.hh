// Walking a container and its model side by side.
#pragma once
#include "model.hh"
namespace pt {
struct Step { bool key; unsigned i; std::string k; };
using Path = std::vector<Step>;
inline Path gen_path( Src & g, MV const & a, unsigned stop = 3 ) {
  Path p; MV const * m = &a;
  while ( ( ( m->k == K::Vec && !m->v.empty() ) || ( m->k == K::Map && !m->m.empty() ) ) && g.chance(stop-1,stop) ) {
    if ( m->k == K::Vec ) { unsigned i = unsigned(g.below(m->v.size())); p.push_back({false,i,""}); m = &m->v[i]; }
    else { auto it = std::next(m->m.begin(),long(g.below(m->m.size()))); p.push_back({true,0,it->first}); m = &it->second; }
  }
  return p;
}
inline MV & at( MV & a, Path const & p ) { MV * m = &a; for ( auto const & s : p ) m = s.key ? &m->m.at(s.k) : &m->v.at(s.i); return *m; }
inline GC & at( GC & a, Path const & p ) { GC * m = &a; for ( auto const & s : p ) m = s.key ? &(*m)(s.k) : &(*m)(s.i); return *m; }
inline std::string show( Path const & p ) { std::string r = "$"; for ( auto const & s : p ) r += s.key ? "["+quote(s.k)+"]" : "["+std::to_string(s.i)+"]"; return r; }
// a damaged buffer may say that a matrix without elements has millions of rows; going through them all takes its time
inline bool vast( GC const & x ) {
  unsigned a = 0, b = 0; switch ( x.get_type() ) {
  case T::MAT_INTEGER: a = x.get_mat_int().num_rows(); b = x.get_mat_int().num_cols(); break;
  case T::MAT_LONG: a = x.get_mat_long().num_rows(); b = x.get_mat_long().num_cols(); break;
  case T::MAT_REAL: a = x.get_mat_real().num_rows(); b = x.get_mat_real().num_cols(); break;
  case T::MAT_COMPLEX: a = x.get_mat_complex().num_rows(); b = x.get_mat_complex().num_cols(); break;
  case T::VECTOR: for ( auto const & e : x.get_vector() ) if ( vast(e) ) return true; return false;
  case T::MAP: for ( auto const & e : x.get_map() ) if ( vast(e.second) ) return true; return false;
  default: return false; }
  return uint64_t(a)*b == 0 && ( a > 1000 || b > 1000 );
}
// what differs between two states of a tree outside the node at p, "" when nothing does
inline std::string diff_outside( MV a, MV b, Path const & p ) {
  if ( p.empty() ) return "";
  try { at(a,p) = MV(); at(b,p) = MV(); } catch ( std::out_of_range const & ) { return "the node operated on is gone"; }
  return diff(a,b);
}
} // namespace pt

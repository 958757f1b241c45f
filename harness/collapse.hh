// Reference for unifying lists.
#pragma once
#include "promo.hh"
namespace pt {
inline MV collapse_model( MV const & a, bool mixed1 ) {
  MV r = a;
  if ( a.k == K::Map ) { for ( auto & x : r.m ) x.second = collapse_model(x.second,mixed1); return r; }
  if ( a.k != K::Vec || a.v.empty() ) return r;
  for ( auto & x : r.v ) x = collapse_model(x,mixed1);
  bool str = true, sca = true, vec = true; int ws = 0, wv = 0; size_t n = r.v[0].count(); bool eq = true, anyvec = false;
  for ( auto const & x : r.v ) {
    if ( x.k != K::Str ) str = false;
    if ( swidth(x.k) < 0 ) sca = false; else ws = std::max(ws,swidth(x.k));
    if ( vwidth(x.k) < 0 ) { if ( !( mixed1 && swidth(x.k) >= 0 ) ) vec = false; else wv = std::max(wv,swidth(x.k)); } else { anyvec = true; wv = std::max(wv,vwidth(x.k)); }
    if ( x.count() != n ) eq = false;
  }
  if ( str ) { MV q(K::VStr); for ( auto const & x : r.v ) q.vs.push_back(x.s); return q; }
  if ( sca ) { MV q(VK[ws]); for ( auto const & x : r.v ) append(q,widen(x,ws)); return q; }
  if ( vec && anyvec && eq ) {
    // a matrix as wide as the widest number; booleans have no matrix
    if ( wv == 0 ) return r;
    MV q(MK[wv]); q.nr = unsigned(n); q.nc = unsigned(r.v.size());
    for ( auto const & x : r.v ) { std::vector<MV> e; elements(x,e); for ( auto const & y : e ) append(q,widen(y,wv)); }
    return q;
  }
  return r;
}
} // namespace pt

// Reference widening of values: how a stored value changes kind when a wider one is needed.
#pragma once
#include "numconv.hh"
namespace pt {
// width of the numeric kinds: bool < int < long < real < complex, -1 for the others
inline int swidth( K k ) { switch ( k ) { case K::Bool: return 0; case K::Int: return 1; case K::Long: return 2; case K::Real: return 3; case K::Cplx: return 4; default: return -1; } }
inline int vwidth( K k ) { switch ( k ) { case K::VBool: return 0; case K::VInt: return 1; case K::VLong: return 2; case K::VReal: return 3; case K::VCplx: return 4; default: return -1; } }
inline int mwidth( K k ) { switch ( k ) { case K::MInt: return 1; case K::MLong: return 2; case K::MReal: return 3; case K::MCplx: return 4; default: return -1; } }
inline MV widen( MV const & x, int w ) { // a numeric scalar in a wider kind
  if ( x.k == K::Cplx ) return x;
  switch ( w ) {
  case 0: return x;
  case 1: return MV::Int( x.k == K::Bool ? int(x.b) : x.i );
  case 2: return MV::Long( x.k == K::Bool ? int64_t(x.b) : x.k == K::Int ? x.i : x.l );
  case 3: return MV::Real(num(x));
  default: return MV::Cplx(cplx(num(x),0));
  }
}
inline void append( MV & list, MV const & x ) { // x already in the kind of the list
  switch ( list.k ) {
  case K::VPtr: list.vp.push_back(x.p); break; case K::VBool: list.vb.push_back(x.b); break;
  case K::VInt: case K::MInt: list.vi.push_back(x.i); break; case K::VLong: case K::MLong: list.vl.push_back(x.l); break;
  case K::VReal: case K::MReal: list.vr.push_back(x.r); break; case K::VCplx: case K::MCplx: list.vc.push_back(x.c); break;
  case K::VStr: list.vs.push_back(x.s); break; default: list.v.push_back(x);
  }
}
static K const SK[5] = { K::Bool,K::Int,K::Long,K::Real,K::Cplx };
static K const VK[5] = { K::VBool,K::VInt,K::VLong,K::VReal,K::VCplx };
static K const MK[5] = { K::None,K::MInt,K::MLong,K::MReal,K::MCplx };
inline MV zero( int w ) { MV z(SK[w]); return z; }
inline bool promote_scalar( MV & a, int w ) {
  if ( a.k == K::None ) { a = zero(w); return true; }
  if ( swidth(a.k) < 0 || swidth(a.k) > w ) return false;
  a = widen(a,w); return true;
}
inline bool promote_vec( MV & a, int w ) {
  MV r(VK[w]); std::vector<MV> e;
  if ( a.k == K::None ) e.push_back(zero(w));
  else if ( swidth(a.k) >= 0 && swidth(a.k) <= w ) e.push_back(a);
  else if ( vwidth(a.k) >= 0 && vwidth(a.k) <= w ) elements(a,e);
  else return false;
  for ( auto const & x : e ) append(r,widen(x,w));
  a = r; return true;
}
inline bool promote_mat( MV & a, int w ) {
  MV r(MK[w]); std::vector<MV> e; 
  if ( mwidth(a.k) >= 0 ) { if ( mwidth(a.k) > w ) return false; elements(a,e); r.nr = a.nr; r.nc = a.nc; }
  else { MV v = a; if ( !promote_vec(v,w) ) return false; elements(v,e); r.nr = unsigned(e.size()); r.nc = 1; }
  for ( auto const & x : e ) append(r,widen(x,w));
  a = r; return true;
}
inline bool promote_list( MV & a ) {
  MV r(K::Vec);
  switch ( a.k ) {
  case K::Vec: return true;
  case K::None: case K::Ptr: case K::Bool: case K::Int: case K::Long: case K::Real: case K::Cplx: case K::Str: r.v.push_back(a); break;
  case K::VPtr: for ( auto x : a.vp ) r.v.push_back(MV::Ptr(x)); break;
  case K::VStr: for ( auto const & x : a.vs ) r.v.push_back(MV::Str(x)); break;
  case K::VBool: case K::VInt: case K::VLong: case K::VReal: case K::VCplx: elements(a,r.v); break;
  default: return false;
  }
  a = r; return true;
}
inline bool push( MV & a, MV const & x ) { // numeric scalar or string
  int w = swidth(x.k);
  if ( x.k == K::Str ) {
    if ( a.k == K::None ) a = MV(K::VStr);
    if ( a.k == K::VStr ) { a.vs.push_back(x.s); return true; }
    if ( !promote_list(a) ) return false;
    a.v.push_back(x); return true;
  }
  if ( a.k == K::Vec ) { a.v.push_back(x); return true; }
  if ( vwidth(a.k) >= w ) { append(a,widen(x,vwidth(a.k))); return true; }
  if ( a.k == K::None ) a = MV(VK[w]);
  else if ( !promote_vec(a,w) ) return false;
  append(a,x); return true;
}
} // namespace pt

// A JSON reader of our own: strict (RFC 8259), or relaxed in the lexical details that lenient readers accept.
#pragma once
#include "model.hh"
#include "collapse.hh"
#include <climits>
#include <cerrno>
namespace pt {
struct J {
  enum Ty { Null, True, False, Num, Str, Arr, Obj } t{Null};
  std::string s;                                   // text of a number, contents of a string
  std::vector<J> a;
  std::vector<std::pair<std::string,J>> o;
};
struct JFlags { bool dup{false}, surrogate{false}, bad_utf8{false}, range{false}, deep{false}; bool any() const { return dup||surrogate||bad_utf8||range||deep; } };

inline void utf8_put( std::string & s, unsigned c ) {
  if ( c < 0x80 ) s += char(c);
  else if ( c < 0x800 ) { s += char(0xC0|(c>>6)); s += char(0x80|(c&63)); }
  else if ( c < 0x10000 ) { s += char(0xE0|(c>>12)); s += char(0x80|((c>>6)&63)); s += char(0x80|(c&63)); }
  else { s += char(0xF0|(c>>18)); s += char(0x80|((c>>12)&63)); s += char(0x80|((c>>6)&63)); s += char(0x80|(c&63)); }
}
inline bool utf8_ok( std::string const & s ) {
  for ( size_t i = 0; i < s.size(); ) {
    unsigned c = (unsigned char)s[i], n, cp;
    if ( c < 0x80 ) { ++i; continue; }
    if ( c >= 0xC2 && c <= 0xDF ) { n = 1; cp = c&31; } else if ( (c&0xF0) == 0xE0 ) { n = 2; cp = c&15; } else if ( c >= 0xF0 && c <= 0xF4 ) { n = 3; cp = c&7; } else return false;
    if ( i+n >= s.size() ) return false;
    for ( unsigned k = 1; k <= n; ++k ) { unsigned d = (unsigned char)s[i+k]; if ( (d&0xC0) != 0x80 ) return false; cp = cp<<6|(d&63); }
    if ( ( n == 2 && cp < 0x800 ) || ( n == 3 && ( cp < 0x10000 || cp > 0x10FFFF ) ) || ( cp >= 0xD800 && cp <= 0xDFFF ) ) return false;
    i += n+1;
  }
  return true;
}

class JParse {
  std::string const & t; size_t p{0}; bool relaxed; int depth{0};
  bool ws() { for ( ; p < t.size(); ++p ) { char c = t[p]; if ( c == ' ' || c == '\t' || c == '\n' || c == '\r' ) continue; if ( relaxed && ( c == '\v' || c == '\f' ) ) continue; break; } return true; }
  bool lit( char const * w ) { size_t n = strlen(w); if ( t.compare(p,n,w) != 0 ) return false; p += n; return true; }
  bool hex4( unsigned & c ) { c = 0; for ( int i = 0; i < 4; ++i, ++p ) { if ( p >= t.size() || !isxdigit((unsigned char)t[p]) ) return false; char x = char(tolower(t[p])); c = c*16 + unsigned( x <= '9' ? x-'0' : x-'a'+10 ); } return true; }
  bool str( std::string & s ) {
    if ( p >= t.size() || t[p] != '"' ) return false;
    for ( ++p; p < t.size(); ) {
      char c = t[p++];
      if ( c == '"' ) return true;
      if ( c != '\\' ) { if ( (unsigned char)c < 0x20 && !relaxed ) return false; s += c; continue; }
      if ( p >= t.size() ) return false;
      c = t[p++];
      switch ( c ) {
      case '"': case '\\': case '/': s += c; break;
      case 'b': s += '\b'; break; case 'f': s += '\f'; break; case 'n': s += '\n'; break; case 'r': s += '\r'; break; case 't': s += '\t'; break;
      case 'u': { unsigned u, v; if ( !hex4(u) ) return false;
        if ( u >= 0xDC00 && u <= 0xDFFF ) { fl.surrogate = true; break; }
        if ( u >= 0xD800 && u <= 0xDBFF ) {
          if ( t.compare(p,2,"\\u") != 0 ) { fl.surrogate = true; break; }
          size_t q = p; p += 2; if ( !hex4(v) ) return false;
          if ( v < 0xDC00 || v > 0xDFFF ) { fl.surrogate = true; p = q; break; }
          u = 0x10000+((u-0xD800)<<10)+(v-0xDC00);
        }
        utf8_put(s,u); break; }
      default: if ( !relaxed ) return false; s += '\\'; s += c;
      }
    }
    return false;
  }
  bool dig() { size_t q = p; while ( p < t.size() && t[p] >= '0' && t[p] <= '9' ) ++p; return p > q; }
  bool num( J & j ) {
    size_t b = p;
    if ( p < t.size() && ( t[p] == '-' || ( relaxed && t[p] == '+' ) ) ) ++p;
    size_t d = p; bool ip = dig();
    if ( !ip && !relaxed ) return false;
    if ( !relaxed && t[d] == '0' && p > d+1 ) return false;
    bool fp = false;
    if ( p < t.size() && t[p] == '.' ) { ++p; fp = dig(); if ( !fp && !relaxed ) return false; }
    if ( !ip && !fp && !relaxed ) return false;
    if ( p == d ) return false;
    if ( p < t.size() && ( t[p] == 'e' || t[p] == 'E' ) ) { ++p; if ( p < t.size() && ( t[p] == '+' || t[p] == '-' ) ) ++p; size_t e = p; if ( !dig() ) return false; long ex = strtol(t.c_str()+e,nullptr,10); if ( ex > 290 ) fl.range = true; }
    j.t = J::Num; j.s = t.substr(b,p-b);
    if ( j.s.size() > 200 || !std::isfinite(strtod(j.s.c_str(),nullptr)) ) fl.range = true;
    return true;
  }
  bool val( J & j ) {
    if ( ++depth > 200 ) { fl.deep = true; return false; }
    struct D { int & d; ~D() { --d; } } dd{depth};
    ws();
    if ( p >= t.size() ) return false;
    switch ( t[p] ) {
    case 'n': j.t = J::Null; return lit("null");
    case 't': j.t = J::True; return lit("true");
    case 'f': j.t = J::False; return lit("false");
    case '"': j.t = J::Str; return str(j.s);
    case '[': ++p; j.t = J::Arr; ws(); if ( p < t.size() && t[p] == ']' ) { ++p; return true; }
      for (;;) { j.a.emplace_back(); if ( !val(j.a.back()) ) return false; ws(); if ( p >= t.size() ) return false; if ( t[p] == ']' ) { ++p; return true; } if ( t[p++] != ',' ) return false; }
    case '{': ++p; j.t = J::Obj; ws(); if ( p < t.size() && t[p] == '}' ) { ++p; return true; }
      for (;;) { ws(); j.o.emplace_back(); if ( !str(j.o.back().first) ) return false; ws(); if ( p >= t.size() || t[p++] != ':' ) return false;
        for ( size_t i = 0; i+1 < j.o.size(); ++i ) if ( j.o[i].first == j.o.back().first ) fl.dup = true;
        if ( !val(j.o.back().second) ) return false; ws(); if ( p >= t.size() ) return false; if ( t[p] == '}' ) { ++p; return true; } if ( t[p++] != ',' ) return false; }
    default: return num(j);
    }
  }
public:
  JFlags fl;
  JParse( std::string const & txt, bool rel ) : t(txt), relaxed(rel) {}
  bool run( J & j ) { if ( !utf8_ok(t) ) fl.bad_utf8 = true; if ( !val(j) ) return false; ws(); return p == t.size(); }
  size_t where() const { return p; }
};
inline MV json_num( std::string const & s ) {
  if ( s.find_first_of(".eE") == std::string::npos ) {
    errno = 0; long long v = strtoll(s.c_str(),nullptr,10);
    if ( errno != ERANGE ) return v >= INT32_MIN && v <= INT32_MAX ? MV::Int(int32_t(v)) : MV::Long(v);
  }
  return MV::Real(strtod(s.c_str(),nullptr));
}
inline MV json_value( J const & j ) { // before the lists are unified
  switch ( j.t ) {
  case J::Null: return MV(); case J::True: return MV::Bool(true); case J::False: return MV::Bool(false);
  case J::Num: return json_num(j.s); case J::Str: return MV::Str(j.s);
  case J::Arr: { MV r(K::Vec); for ( auto const & x : j.a ) r.v.push_back(json_value(x)); return r; }
  default: { MV r(K::Map); for ( auto const & x : j.o ) r.m[x.first] = json_value(x.second); return r; }
  }
}
// got must be the value of a text after unification
inline std::string unified_diff( MV const & raw, MV const & got ) {
  MV w1 = collapse_model(raw,true); std::string d = diff(w1,got);
  if ( d.empty() ) return d;
  MV w2 = collapse_model(raw,false);
  return same(w1,w2) ? d : diff(w2,got);
}
} // namespace pt

// One operation drawn from the whole interface, on any node of two containers.
#pragma once
#include "tree.hh"
#include "GenericContainer/GenericContainerInterface_json.hh"
#include <memory>
namespace pt {
static std::string damage( Src & g, std::string s ) {
  int n = g.range(0,3);
  for ( int i = 0; i < n; ++i ) switch ( g.below(4) ) {
    case 0: if ( !s.empty() ) s.resize(g.below(s.size())); break;
    case 1: if ( !s.empty() ) s[g.below(s.size())] = char(g.below(256)); break;
    case 2: if ( !s.empty() ) s.erase(g.below(s.size()),1); break;
    default: s.insert(g.below(s.size()+1),1,"[]{},:\"\\0-e. \n"[g.below(15)]); }
  return s;
}
static std::string key( Src & g, GC & x ) {
  if ( x.get_type() == T::MAP && !x.get_map().empty() && g.coin() ) return std::next(x.get_map().begin(),long(g.below(x.get_map().size())))->first;
  return gen_string(g,GenOpt::Str::Bytes,4);
}
static char const * step( Src & g, GC & x, GC & y, bool alias ) {
  GenOpt o; o.max_depth = g.range(0,2); o.max_len = 4;
  switch ( g.below(36) ) {
  case 0: case 1: build_varied(g,x,gen(g,o)); return "store";
  case 2: x = y; return "assign";
  case 3: x.from_gc(y); return "from_gc";
  case 4: y.to_gc(x); return "to_gc";
  case 5: { GC t(y); x.load(t); return "copy"; }
  case 6: x.merge(y,"t"); return "merge";
  case 7: x.clear(); return "clear";
  case 8: if ( x.get_type() == T::POINTER ) x.free_pointer(); return "free_pointer";
  case 9: if ( x.get_type() == T::MAP && !x.get_map().empty() && g.coin() ) { x.erase(x.get_map().begin()->first); return "erase by its own key"; } x.erase(key(g,x)); return "erase";
  case 10: if ( x.get_type() == T::STRING && g.coin() ) { x[std::string_view(x.get_string())]; return "operator [key], its own text"; } x[key(g,x)]; return "operator [key]";
  case 11: x[unsigned(g.below(9))]; return "operator [i]";
  case 12: x(key(g,x),"t"); return "operator (key)";
  case 13: x(unsigned(g.below(9)),"t"); return "operator (i)";
  case 14: x(std::vector<std::string>{key(g,x),key(g,x)},"t"); return "operator (keys)";
  case 15: switch ( g.below(5) ) { case 0: x.promote_to_int(); break; case 1: x.promote_to_long(); break; case 2: x.promote_to_real(); break; case 3: x.promote_to_complex(); break; default: x.promote_to_vec_int(); } return "promote";
  case 16: switch ( g.below(8) ) { case 0: x.promote_to_vec_long(); break; case 1: x.promote_to_vec_real(); break; case 2: x.promote_to_vec_complex(); break; case 3: x.promote_to_mat_int(); break; case 4: x.promote_to_mat_long(); break; case 5: x.promote_to_mat_real(); break; case 6: x.promote_to_mat_complex(); break; default: x.promote_to_vector(); } return "promote to vectors";
  case 17: case 18: switch ( g.below(6) ) { case 0: x.push_bool(g.coin()); break; case 1: x.push_int(gen_i32(g)); break; case 2: x.push_long(gen_i64(g)); break; case 3: x.push_real(gen_double(g,o)); break; case 4: x.push_complex(1,gen_double(g,o)); break; default: x.push_string(gen_string(g,GenOpt::Str::Bytes,20)); } return "push";
  case 19: x.collapse(); return "collapse";
  case 20: case 21: { // through a buffer, whole or damaged
    if ( alias ) return "";
    std::vector<uint8_t> b; y.serialize(b); std::string s(b.begin(),b.end()); s = damage(g,s); b.assign(s.begin(),s.end());
    if ( !b.empty() ) { try { x.de_serialize(b); } catch ( std::exception const & ) { if ( vast(x) ) x.clear(); throw; } if ( vast(x) ) x.clear(); } return "serialize"; }
  case 22: case 23: { std::string s; GC_namespace::GC_to_JSON(y,s); s = damage(g,s); std::istringstream i(s); if ( g.coin() ) x.from_json(i); else x.from_json2(i); return "json"; }
  case 24: { if ( alias ) return ""; std::ostringstream s; y.to_yaml(s); std::istringstream i(damage(g,s.str())); x.from_yaml(i); return "yaml"; }
  case 25: { std::ostringstream s; if ( y.to_toml(s) ) { std::istringstream i(damage(g,s.str())); x.from_toml(i); } return "toml"; }
  case 26: { std::istringstream i(damage(g,"a b\n1 2\n3 4\n# c\n5 6\n")); if ( g.coin() ) x.read_formatted_data(i); else { GC p; x.read_formatted_data2(i,"#"," \t",&p); } return "table"; }
  case 27: { std::ostringstream s; switch ( g.below(4) ) { case 0: x.write_formatted_data(s,'\t'); break; case 1: x.info(s); break; case 2: x.dump(s); break; default: x.print_content_types(s); } return "print"; }
  case 28: { unsigned n = unsigned(g.below(6)), m = unsigned(g.below(4)); switch ( g.below(12) ) { case 0: x.set_vec_pointer(n); break; case 1: x.set_vec_bool(n); break; case 2: x.set_vec_int(n); break; case 3: x.set_vec_long(n); break; case 4: x.set_vec_real(n); break; case 5: x.set_vec_complex(n); break; case 6: x.set_vec_string(n); break; case 7: x.set_vector(n); break; case 8: x.set_map(); break; case 9: x.set_mat_real(n,m); break; case 10: x.set_mat_complex(n,m); break; default: x.set_mat_int(n,m); } return "resize"; }
  case 29: switch ( g.below(8) ) { case 0: x.get_int(); break; case 1: x.get_string(); break; case 2: x.get_vec_real(); break; case 3: x.get_mat_complex(); break; case 4: x.get_map(); break; case 5: x.get_vector(); break; case 6: x.get_as_int(); break; default: x.get_vec_complex(); } return "access";
  case 30: switch ( g.below(6) ) { case 0: { std::vector<double> v; x.copyto_vec_real(v); break; } case 1: { std::vector<std::string> v; x.copyto_vec_string(v); break; } case 2: { std::vector<cplx> v; x.copyto_vec_complex(v); break; } case 3: x.get_int_at(unsigned(g.below(5))); break; case 4: x.get_complex_at(unsigned(g.below(5)),unsigned(g.below(5))); break; default: x.get_string_at(unsigned(g.below(5)),"t"); } return "conversion";
  case 31: { std::string a = x.compare_content(y,""); (void)a; return "compare"; }
  case 32: { unsigned i = unsigned(g.below(5)), j = unsigned(g.below(4)); switch ( g.below(6) ) { case 0: x.get_real_at(i,j) = 1; break; case 1: x.get_int_at(i,j) = 1; break; case 2: x.get_real_at(i) = 1; break; case 3: x.get_complex_at(i) = 1; break; case 4: x.get_bool_at(i); break; default: x.get_string_at(i) = "a longer string than fits in place"; } return "at"; }
  case 34: { // far beyond the end
    static unsigned const e[] = { 0xFFFFFFFFu, 0xFFFFFFFEu, 0x80000000u, 0x7FFFFFFFu, 0x40000000u }; unsigned i = g.pick(e);
    switch ( g.below(12) ) { case 0: x[i]; break; case 1: x.get_bool_at(i); break; case 2: x.get_int_at(i) = 1; break; case 3: x.get_long_at(i) = 1; break; case 4: x.get_real_at(i) = 1; break; case 5: x.get_complex_at(i) = 1; break; case 6: x.get_string_at(i) = "s"; break;
      case 7: x.get_int_at(i,0) = 1; break; case 8: x.get_real_at(0,i) = 1; break; case 9: x.get_long_at(i,i) = 1; break; case 10: x.get_complex_at(i,1) = 1; break; default: x(i,"t"); } return "far index"; }
  default: { std::unique_ptr<GC> t(new GC(y)); x = *t; std::vector<GC> v(3,*t); v.resize(9); v.erase(v.begin()); return "vector of containers"; }
  }
}
} // namespace pt

// Composite encodings over an abstract element: one element is one symbol of the stream.
#include "elems.h"
#define BOTH(SUF, ENC, DEC) extern "C" { \
void d_put_seq_##SUF(const elem* p, std::size_t n) { ghost_out o; ENC e(o); out_seq<elem> s{p, n}; e(static_cast<const out_seq<elem>&>(s)); } \
void d_put_map_##SUF(const pair_type* p, std::size_t n) { ghost_out o; ENC e(o); out_seq<pair_type> s{p, n}; e(static_cast<const out_seq<pair_type>&>(s)); } \
void d_put_vec_##SUF(const std::vector<elem>& v) { ghost_out o; ENC e(o); e(v); } \
void d_put_vec2_##SUF(const std::vector<elem>& v, const std::vector<elem>& w) { ghost_out o; ENC e(o); e(v); e(w); } \
void d_put_str_##SUF(const std::string& v) { ghost_out o; ENC e(o); e(v); } \
void d_put_view_##SUF(const char* p, std::size_t n) { ghost_out o; ENC e(o); e(std::string_view(p, n)); } \
void d_put_u32s_##SUF(const std::vector<std::uint32_t>& v) { ghost_out o; ENC e(o); e(v); } \
void d_put_arr_##SUF(const std::array<elem, 3>& v) { ghost_out o; ENC e(o); e(v); } \
void d_put_opt_##SUF(bool has, long id) { ghost_out o; ENC e(o); std::optional<elem> v; if (has) { v.emplace(); v->id = id; } e(static_cast<const std::optional<elem>&>(v)); } \
void d_put_uptr_##SUF(bool has, long id) { ghost_out o; ENC e(o); std::unique_ptr<elem> v; if (has) { v.reset(new elem); v->id = id; } e(static_cast<const std::unique_ptr<elem>&>(v)); } \
void d_put_tup_##SUF(const long* i) { ghost_out o; ENC e(o); std::tuple<elem, elem, elem> t; std::get<0>(t).id = i[0]; std::get<1>(t).id = i[1]; std::get<2>(t).id = i[2]; e(t); } \
void d_put_pair_##SUF(const long* i) { ghost_out o; ENC e(o); std::pair<elem, elem> t; t.first.id = i[0]; t.second.id = i[1]; e(t); } \
void d_put_agg_##SUF(const long* i) { ghost_out o; ENC e(o); agg t; t.a.id = i[0]; t.b.id = i[1]; t.c.id = i[2]; e(t); } \
void d_put_rec_##SUF(const long* i) { ghost_out o; ENC e(o); leaf t; t.p.id = i[0]; t.q.id = i[1]; t.x.id = i[2]; t.y.id = i[3]; t.w.id = i[4]; t.z.id = i[5]; e(static_cast<const leaf&>(t)); } \
void d_get_seq_##SUF() { ghost_in i; DEC d(i); in_seq s; d(s); } \
void d_get_seqr_##SUF() { ghost_in i; DEC d(i); in_seq_reserving s; d(s); } \
void d_get_set_##SUF() { ghost_in i; DEC d(i); in_set s; d(s); } \
void d_get_map_##SUF() { ghost_in i; DEC d(i); in_map s; d(s); } \
void d_get_vec_##SUF(std::vector<elem>& v) { ghost_in i; DEC d(i); d(v); } \
void d_get_vec2_##SUF(std::vector<elem>& v, std::vector<elem>& w) { ghost_in i; DEC d(i); d(v); d(w); } \
void d_get_str_##SUF(std::string& v) { ghost_in i; DEC d(i); d(v); } \
void d_get_u32s_##SUF(std::vector<std::uint32_t>& v) { ghost_in i; DEC d(i); d(v); } \
void d_get_arr_##SUF(std::array<elem, 3>& v) { ghost_in i; DEC d(i); d(v); } \
bool d_get_opt_##SUF(bool had, long old, long* out) { ghost_in i; DEC d(i); std::optional<elem> v; if (had) { v.emplace(); v->id = old; } d(v); if (v) *out = v->id; return v.has_value(); } \
bool d_get_uptr_##SUF(bool had, long old, long* out) { ghost_in i; DEC d(i); std::unique_ptr<elem> v; if (had) { v.reset(new elem); v->id = old; } d(v); if (v) *out = v->id; return v != nullptr; } \
void d_get_tup_##SUF(long* i) { ghost_in s; DEC d(s); std::tuple<elem, elem, elem> t; d(t); i[0] = std::get<0>(t).id; i[1] = std::get<1>(t).id; i[2] = std::get<2>(t).id; } \
void d_get_pair_##SUF(long* i) { ghost_in s; DEC d(s); std::pair<elem, elem> t; d(t); i[0] = t.first.id; i[1] = t.second.id; } \
void d_get_agg_##SUF(long* i) { ghost_in s; DEC d(s); agg t; d(t); i[0] = t.a.id; i[1] = t.b.id; i[2] = t.c.id; } \
void d_get_rec_##SUF(long* i) { ghost_in s; DEC d(s); leaf t; d(t); i[0] = t.p.id; i[1] = t.q.id; i[2] = t.x.id; i[3] = t.y.id; i[4] = t.w.id; i[5] = t.z.id; } \
void d_ps_send_##SUF(const std::string& a) { ghost_out o; arpc::protected_stream_packet_protocol<ENC, DEC> p; p.send(o, a); } \
void d_ps_send2_##SUF(const std::string& a, const std::string& b) { ghost_out o; arpc::protected_stream_packet_protocol<ENC, DEC> p; p.send(o, a); p.send(o, b); } \
void d_ps_receive_##SUF(std::string& r) { ghost_in i; arpc::protected_stream_packet_protocol<ENC, DEC> p; r = p.receive(i); } \
void d_ps_receive2_##SUF(std::string& r, std::string& s) { ghost_in i; arpc::protected_stream_packet_protocol<ENC, DEC> p; r = p.receive(i); s = p.receive(i); } \
}
BOTH(le, LE, LD)
BOTH(be, BE, BD)

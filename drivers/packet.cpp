#include "ghost.h"
#include "arpc/packet_codecs.h"
#include "arpc/packet_protocols.h"
#include "arpc/highway_hash.h"
extern "C" {
void d_mac_encode(const std::uint64_t* k, std::string& s) { arpc::mac_codec m(k); arpc::packet_codec& c = m; c.encode(s); }
void d_mac_decode(const std::uint64_t* k, std::string& s) { arpc::mac_codec m(k); arpc::packet_codec& c = m; c.decode(s); }
void d_mac_enc_enc(const std::uint64_t* k, std::string& a, std::string& b) { arpc::mac_codec m(k); m.encode(a); m.encode(b); }
void d_mac_enc_dec(const std::uint64_t* k, std::string& a, std::string& b) { arpc::mac_codec m(k); m.encode(a); m.decode(b); }
void d_mac_dec_enc(const std::uint64_t* k, std::string& a, std::string& b) { arpc::mac_codec m(k); try { m.decode(a); } catch (...) {} m.encode(b); }
void d_mac_dec_dec(const std::uint64_t* k, std::string& a, std::string& b) { arpc::mac_codec m(k); try { m.decode(a); } catch (...) {} m.decode(b); }
void d_mac_rt(const std::uint64_t* k, std::string& a) { { arpc::mac_codec m(k); m.encode(a); } arpc::mac_codec n(k); n.decode(a); }
void d_mac_default(std::string& s) { arpc::mac_codec m; m.encode(s); }
void d_sl_send(const std::string& a) { ghost_out o; arpc::serial_line_packet_protocol<> p; p.send(o, a); }
void d_sl_send2(const std::string& a, const std::string& b) { ghost_out o; arpc::serial_line_packet_protocol<> p; p.send(o, a); p.send(o, b); }
void d_sl_receive(std::string& r) { ghost_in i; arpc::serial_line_packet_protocol<> p; r = p.receive(i); }
void d_sl_receive_max(std::string& r) { ghost_in i; arpc::serial_line_packet_protocol<5000> p; r = p.receive(i); }
void d_sl_receive2(std::string& r, std::string& s) { ghost_in i; arpc::serial_line_packet_protocol<> p; r = p.receive(i); s = p.receive(i); }
}

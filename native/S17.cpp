#include "oracle.h"
#include <map>
#include "arpc/binary_codecs.h"
#include "arpc/serializable.h"
#include "arpc/string_adapters.h"
using oracle::one; using oracle::rng; using oracle::hex; namespace reg = arpc::registry; namespace er = arpc::errors;
struct b0 : arpc::dynamic<b0> { int a = 0; ARPC_FIELDS(a); };
struct b1 : arpc::dynamic<b1, b0> { std::string s; ARPC_FIELDS(s); };
struct b2 : arpc::dynamic<b2, b0> { double d = 0; ARPC_FIELDS(d); };
struct b3 : arpc::dynamic<b3, b1> { std::vector<int> v; ARPC_FIELDS(v); };
struct b4 : arpc::dynamic<b4> { bool q = false; ARPC_FIELDS(q); };
ARPC_REGISTER(b0); ARPC_REGISTER(b1); ARPC_REGISTER(b2); ARPC_REGISTER_WITH_NAME("own::name", b3); ARPC_REGISTER(b4);
using enc = arpc::little_endian_binary_encoder; using dec = arpc::big_endian_binary_decoder;
struct fact { std::uint32_t hash; int type; };
std::map<std::string, fact> model; std::vector<std::unique_ptr<std::string>> keep;
const char* class_name(int t) { static const char* n[] = {"b0", "b1", "b2", "own::name", "b4"}; return n[t]; }
template <typename T> void bases(int t, bool* out);
template <typename B> bool is(const std::string& n) { std::string c = n; c.shrink_to_fit(); return reg::dynamic_subclass_registry<B>::get().is_subclass(c); }
void check(const std::string& n) {
  std::string key = n; key.shrink_to_fit(); auto it = model.find(n); bool in = it != model.end(); reg::dynamic_object_factory::info i{}; int o = outcome<er::not_found>([&] { i = reg::dynamic_object_factory::get()[key]; }); REQUIRE(o == (in ? 0 : 1), "factory lookup: outcome ", o);
  int e = outcome<er::not_found>([&] { reg::dynamic_encoder_registry<enc>::get()[key]; }), d = outcome<er::not_found>([&] { reg::dynamic_decoder_registry<dec>::get()[key]; }); REQUIRE(e == o && d == o, "encoder and decoder lookups ", e, d);
  static const bool sub[5][5] = {{1, 0, 0, 0, 0}, {1, 1, 0, 0, 0}, {1, 0, 1, 0, 0}, {1, 1, 0, 1, 0}, {0, 0, 0, 0, 1}}; int t = in ? it->second.type : -1; bool got[5] = {is<b0>(n), is<b1>(n), is<b2>(n), is<b3>(n), is<b4>(n)}; for (int k = 0; k < 5; k++) REQUIRE(got[k] == (in && sub[t][k]), "is_subclass of class ", k, " gives ", got[k]); REQUIRE(is<arpc::dynamic_base_class>(n) == in);
  if (in) { REQUIRE(i.type_hash == it->second.hash, "structure hash"); std::unique_ptr<arpc::dynamic_base_class> p(i.factory_function()); REQUIRE(p->portable_class_name() == class_name(t), "factory makes ", p->portable_class_name(), " expected ", class_name(t));
    std::string s; arpc::string_output_stream os(s); enc E(os); reg::dynamic_encoder_registry<enc>::get()[key].encoder_function(E, *p); static const std::size_t len[] = {4, 5, 12, 6, 1}; REQUIRE(s.size() == len[t], "encoder registered for another class"); std::string z(64, '\0'); arpc::string_input_stream is2(z); dec D(is2); reg::dynamic_decoder_registry<dec>::get()[key].decoder_function(D, *p); REQUIRE(is2.pos() == len[t], "decoder registered for another class"); }
}
template <typename T> int add(const std::string& n, int type) {
  keep.push_back(std::make_unique<std::string>(n)); std::string_view v = *keep.back(); int o = outcome<er::invalid_state>([&] { auto r = reg::dynamic_object_factory::get().register_class<T, arpc::config::all_encoders, arpc::config::all_decoders>(v); REQUIRE(r == n); }); bool in = model.count(n); REQUIRE(o == (in ? 1 : 0), "registration outcome ", o); if (!in) model[n] = {arpc::traits::type_hash_v<T>, type}; return o;
}
int main(int c, char** a) {
  oracle::init(c, a); model = {{"b0", {arpc::traits::type_hash_v<b0>, 0}}, {"b1", {arpc::traits::type_hash_v<b1>, 1}}, {"b2", {arpc::traits::type_hash_v<b2>, 2}}, {"own::name", {arpc::traits::type_hash_v<b3>, 3}}, {"b4", {arpc::traits::type_hash_v<b4>, 4}}};
  oracle::begin("classes registered at start"); for (auto& m : std::map<std::string, fact>(model)) { one("class " + m.first); check(m.first); } for (std::string n : {"", "b", "b00", "B0", "b5", "own::nam", "own::name "}) { one("unregistered " + n); check(n); } one("names"); REQUIRE(arpc::portable_class_name<b3>() == "own::name"); REQUIRE(b3().portable_class_name() == "own::name"); REQUIRE(arpc::portable_class_name<b1>() == "b1");
  while (oracle::more(1.0)) {
    if (model.size() < 3000) { oracle::begin("registrations"); std::string n; for (std::size_t k = rng.below(4); k-- > 0;) n += "ab\0c"[rng.below(4)]; if (rng.coin()) n += std::to_string(rng.below(500)); if (rng.below(4) == 0) { static const int L[] = {7, 8, 14, 15, 16, 22, 23, 30, 31, 32, 62, 63, 64, 100, 127, 128, 254, 255, 256, 300, 1000}; n = std::string(L[rng.below(21)], 'n') + n; } if (rng.below(5) == 0) n = std::next(model.begin(), rng.below(model.size()))->first; int t = (int)rng.below(5); one("registering class " + std::to_string(t) + " as " + hex(n)); switch (t) { case 0: add<b0>(n, 0); break; case 1: add<b1>(n, 1); break; case 2: add<b2>(n, 2); break; case 3: add<b3>(n, 3); break; default: add<b4>(n, 4); } check(n); }
    oracle::begin("lookups"); for (int k = 0; k < 4; k++) { std::string n = std::next(model.begin(), rng.below(model.size()))->first; if (rng.coin()) { if (rng.coin() || n.empty()) n += char("ab0\0"[rng.below(4)]); else n.erase(rng.below(n.size()), 1); } one("lookup of " + hex(n) + " among " + std::to_string(model.size())); check(n); }
  }
  return oracle::done();
}

#include "types.h"
using namespace model;
using oracle::one;
template <typename T> void value(const T& v, bool big) {
  one(std::string(big ? "big-endian " : "little-endian ") + describe(v));
  std::string s = encode(v, big);
  T r = gen<T>(1);   // the target holds something else before
  std::size_t used = decode(s + "\x55\xAA", r, big);
  REQUIRE(used == s.size(), "consumed ", used, " produced ", s.size());
  REQUIRE(same(v, r), "decoded differs: ", oracle::hex(ref(r, false)));
}
template <typename T> void one_after_another() {
  bool big = rng.coin();
  T a = gen<T>(1), b = gen<T>(1); std::string mid = gen<std::string>(0);
  one("sequence of three values, second is a string of " + std::to_string(mid.size()) + " bytes; first " + describe(a));
  std::string s; arpc::string_output_stream o(s);
  auto put = [&](auto& e) { e(a); e(mid); e(b); };
  if (big) { arpc::big_endian_binary_encoder e(o); put(e); } else { arpc::little_endian_binary_encoder e(o); put(e); }
  T ra = gen<T>(1), rb = gen<T>(1); std::string rm = "old";
  arpc::string_input_stream i(s);
  auto get = [&](auto& d) { d(ra); d(rm); d(rb); };
  if (big) { arpc::big_endian_binary_decoder d(i); get(d); } else { arpc::little_endian_binary_decoder d(i); get(d); }
  REQUIRE(same(a, ra) && same(b, rb) && rm == mid); REQUIRE(i.pos() == s.size());
}
template <typename T> void lengths() {
  for (std::size_t n : {0, 1, 126, 127, 128, 129, 255, 256, 300, 16383, 16384, 16385, 70000}) {
    T v; for (std::size_t k = 0; k < n; k++) v.insert(v.end(), typename T::value_type(k * 7 + 1));
    one(std::string(name<T>()) + " with " + std::to_string(n) + " elements");
    for (bool big : {false, true}) {
      std::string s = encode(v, big); T r{typename T::value_type(9)};
      std::size_t used = decode(s + "tail", r, big);
      REQUIRE(used == s.size(), used, s.size()); REQUIRE(std::equal(r.begin(), r.end(), v.begin(), v.end()), "sizes ", r.size(), " ", v.size());
    }
  }
}
int main(int c, char** a) {
  oracle::init(c, a);
  oracle::begin("every container length");
  lengths<std::string>(); lengths<std::vector<std::uint8_t>>(); lengths<std::vector<std::uint32_t>>(); lengths<std::deque<std::int16_t>>(); lengths<std::set<std::int32_t>>(); lengths<std::vector<bool>>(); lengths<arpc::flat_set<std::int32_t>>();
  oracle::begin("pointers and string_view");
  {
    std::string s; arpc::string_output_stream o(s); arpc::little_endian_binary_encoder e(o);
    std::string text(300, 'x'); e(std::string_view(text)); const int ci = 5; e(ci); int arr[3] = {1, -2, 3}; e(arr);
    arpc::string_input_stream i(s); arpc::little_endian_binary_decoder d(i); std::string r; int ri; int rarr[3]; one("string_view of 300 bytes, const int, int[3]");
    d(r); d(ri); d(rarr); REQUIRE(r == text && ri == 5 && rarr[0] == 1 && rarr[1] == -2 && rarr[2] == 3 && i.pos() == s.size());
  }
  oracle::begin("multimap order");
  {
    std::multimap<int, int> m; for (int k = 0; k < 40; k++) m.emplace(k % 3, k);
    std::string s = encode(m, false); std::multimap<int, int> r; one("std::multimap with 40 entries under 3 keys"); decode(s, r, false); REQUIRE(m == r);
  }
  {
    arpc::flat_multimap<int, int> m{{1, 10}, {1, 11}, {1, 12}}, r; one("flat_multimap {1:10, 1:11, 1:12}");
    std::string s = encode(m, false); decode(s, r, false); std::vector<std::pair<int, int>> a(m.begin(), m.end()), b(r.begin(), r.end());
    if (a != b) {
      std::sort(b.begin(), b.end()); REQUIRE(a == b);
      oracle::known("S01-multi-order", "a flat_multimap or flat_multiset with equivalent keys comes back with those elements in reverse order");
    }
  }
  while (oracle::more(1.0)) {
    oracle::begin("random values");
#define X(T) value<T>(gen<T>(0), rng.coin());
    MODEL_TYPES(X)
#undef X
    oracle::begin("one after another");
    one_after_another<std::int32_t>(); one_after_another<std::string>(); one_after_another<model::derived>(); one_after_another<std::vector<std::string>>(); one_after_another<std::map<std::int32_t, std::string>>();
    one_after_another<model::mixed>(); one_after_another<std::optional<std::string>>();
  }
  return oracle::done();
}

#include "types.h"
using namespace model;
using oracle::one;
template <typename T> void value(const T& v, bool big) {
  one(std::string(big ? "big-endian " : "little-endian ") + describe(v));
  std::string s = encode(v, big), r = ref(v, big);
  REQUIRE(s == r, "emitted ", oracle::hex(s), " expected ", oracle::hex(r));
}
template <std::size_t n> void large() {
  using arr = std::array<std::uint8_t, n>;
  for (bool big : {false, true}) {
    auto a = std::make_unique<arr>(); for (std::size_t i = 0; i < n; i++) (*a)[i] = i * 5 + 1;
    auto o = std::make_unique<std::optional<arr>>(*a); value(*o, big); o->reset(); value(*o, big);
    value(a, big); std::unique_ptr<arr> nul; value(nul, big);
  }
}
int main(int c, char** a) {
  oracle::init(c, a);
  const std::uint16_t probe = 1; REQUIRE(*reinterpret_cast<const char*>(&probe) == 1, "host must be little endian");
  oracle::begin("sizes");
  for (std::size_t n = 0; n < 700; n++) { std::string v(n, 'a'); value(v, n & 1); }
  for (std::size_t n : {16382, 16383, 16384, 16385, 16511, 16512, 2097151, 2097152, 2097153}) value(std::string(n, 'q'), false);
  oracle::begin("scalars");
  for (int k = 0; k < 256; k++) { value(std::uint8_t(k), false); value(char(k), true); }
  for (int k = 0; k < 64; k++) for (bool b : {false, true}) { value(std::uint64_t(1) << k, b); value(std::int64_t(~0ull << k), b); value(std::uint32_t(1ull << (k & 31)), b); value(std::int16_t(1ull << (k & 15)), b); value(std::uint64_t(0x0102030405060708) * (k + 1), b); }
  oracle::begin("string views");
  for (std::size_t n : {0, 1, 127, 128, 255, 256, 16383, 16384, 32767, 32768, 65535, 65536, 65537, 100000, 131072, 2097152}) for (bool big : {false, true}) {
    std::string v; for (std::size_t i = 0; i < n; i++) v += char(i * 7 + (i >> 8)); std::string_view w = v;
    one("string_view of " + std::to_string(n) + " chars"); REQUIRE(encode(w, big) == ref(v, big));
  }
  oracle::begin("presence of large elements");
  large<64>(); large<128>(); large<255>(); large<256>(); large<512>(); large<1024>(); large<4096>(); large<65536>(); large<131072>();
  oracle::begin("long sequences");
  for (std::size_t n : {32767, 32768, 65535, 65536, 65537, 70000}) { value(std::vector<std::uint16_t>(n, 0x1234), n & 1); std::list<bool> l(n, true); value(std::vector<bool>(n, true), n & 1); value(std::deque<std::int64_t>(n, -5), false); std::set<std::int32_t> s; for (std::size_t i = 0; i < n; i++) s.insert(i); value(s, true); }
  oracle::begin("object numbers");
  {
    std::string s; arpc::string_output_stream o(s); arpc::little_endian_binary_encoder e(o); std::string expect; std::vector<std::shared_ptr<int>> keep;
    for (int k = 1; k <= 20000; k++) { keep.push_back(std::make_shared<int>(k)); e(keep.back()); enc r(false); r.number(k); r.put(int(k)); expect += r.out; if (k == 129 || k == 300) { e(keep[0]); e(keep[127]); e(keep[128]); enc q(false); q.number(1); q.number(128); q.number(129); expect += q.out; } }
    std::shared_ptr<int> nul; e(nul); expect += '\0';
    one("20000 shared pointers with back references"); REQUIRE(s == expect);
  }
  oracle::begin("portable class numbers are written once per class"); 
  while (oracle::more(1.0)) {
    oracle::begin("random values");
#define X(T) value<T>(gen<T>(0), rng.coin());
    MODEL_TYPES(X)
#undef X
  }
  return oracle::done();
}

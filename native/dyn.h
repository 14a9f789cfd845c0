// Dynamic (polymorphic) and sharing model classes.
#pragma once
#include "types.h"
struct node : public arpc::serializable<node> {
  std::int32_t v = 0; std::shared_ptr<node> next; std::weak_ptr<node> back; std::vector<std::shared_ptr<node>> kids;
  ARPC_FIELDS(v, next, back, kids);
};
struct shape : public arpc::dynamic<shape> { std::int32_t id = 0; virtual const char* kind() const { return "shape"; } ARPC_FIELDS(id); };
struct circle : public arpc::dynamic<circle, shape> { double r = 0; std::string n; const char* kind() const override { return "circle"; } ARPC_FIELDS(r, n); };
struct square : public arpc::dynamic<square, shape> { std::int16_t side = 0; const char* kind() const override { return "square"; } ARPC_FIELDS(side); };
struct ring : public arpc::dynamic<ring, circle> { double inner = 0; const char* kind() const override { return "ring"; } ARPC_FIELDS(inner); };
struct group : public arpc::dynamic<group, shape> {
  std::vector<std::shared_ptr<shape>> members; std::unique_ptr<shape> own; std::weak_ptr<shape> ref;
  const char* kind() const override { return "group"; } ARPC_FIELDS(members, own, ref);
};
struct other : public arpc::dynamic<other> { std::string s; ARPC_FIELDS(s); };
struct poly : public arpc::serializable<poly> { std::int32_t px = 0; virtual ~poly() {} ARPC_FIELDS(px); };
struct multi : public arpc::dynamic<multi, poly, circle> { std::uint8_t m = 0; const char* kind() const override { return "multi"; } ARPC_FIELDS(m); };
ARPC_REGISTER(shape); ARPC_REGISTER(circle); ARPC_REGISTER(square); ARPC_REGISTER(ring); ARPC_REGISTER_WITH_NAME("a::group", group); ARPC_REGISTER(other); ARPC_REGISTER(multi);
template <typename E, typename D, typename W, typename R> void wire(std::string& s, W&& w, R&& r) {
  arpc::string_output_stream o(s); E e(o); w(e);
  arpc::string_input_stream i(s); D d(i); r(d);
  REQUIRE(i.pos() == s.size(), "decoder consumed ", i.pos(), " of ", s.size());
}
template <typename W, typename R> std::string wire(bool big, W&& w, R&& r) {
  std::string s;
  if (big) wire<arpc::big_endian_binary_encoder, arpc::big_endian_binary_decoder>(s, w, r);
  else wire<arpc::little_endian_binary_encoder, arpc::little_endian_binary_decoder>(s, w, r);
  return s;
}

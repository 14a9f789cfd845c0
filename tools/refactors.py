"""Edits that keep the behaviour: the checks named have to stay quiet (seedtool.py quiet tools/refactors.py [rx])."""
R = []
def r(id, props, *edits, nth=0): R.append(dict(id=id, props=props.split(), edits=list(edits), nth=nth))
r("string_read_min", "S13", ("string_adapters.cpp", "  l = std::min(l, is_.size() - pos_);\n  std::copy(is_.begin() + pos_, is_.begin() + pos_ + l, p);\n  pos_ += l;\n  return l;",
  "  const std::size_t left = is_.size() - pos_;\n  std::size_t n = 0;\n  while (n < l && n < left) {\n    p[n] = is_[pos_ + n];\n    ++n;\n  }\n  pos_ += n;\n  return n;"))
r("string_read_memcpy", "S13", ("string_adapters.cpp", "  std::copy(is_.begin() + pos_, is_.begin() + pos_ + l, p);", "  std::copy_n(is_.data() + pos_, l, p);"))
r("string_read_method", "S13", ("string_adapters.cpp", "  l = std::min(l, is_.size() - pos_);\n  std::copy(is_.begin() + pos_, is_.begin() + pos_ + l, p);\n  pos_ += l;\n  return l;", "  const std::size_t n = is_.copy(p, l, pos_);\n  pos_ += n;\n  return n;"))
r("io_read_for", "S13", ("io_adapters.cpp", "  std::size_t r = 0;\n  while (r < l) {\n    try {\n      auto c = getc();\n      r++;\n      *p++ = c;\n    } catch (const errors::eof&) {\n      break;\n    }\n  }\n  return r;",
  "  std::size_t done = 0;\n  try {\n    for (; done < l; ++done) {\n      const char c = getc();\n      p[done] = c;\n    }\n  } catch (const errors::eof&) {\n    // A short read.\n  }\n  return done;"))
r("io_write_for", "S13", ("io_adapters.cpp", "  while (l-- > 0) {\n    putc(*p++);\n  }", "  for (std::size_t i = 0; i != l; ++i) putc(p[i]);"))
r("io_fully", "S13 S05", ("io_adapters.cpp", "  std::size_t r = read(p, l);\n  if (r < l) {\n    throw errors::eof(\"EOF\");\n  }", "  if (read(p, l) != l) throw errors::eof(\"EOF\");"))
r("iostream_helper", "S13", ("iostream_adapters.cpp", "void ostream_output_stream::write(const char* p, std::size_t l) {\n  if (!os_.write(p, l)) throw errors::io_error(\"Bad output stream\");\n}\n\nvoid ostream_output_stream::putc(char c) {\n  if (!os_.put(c)) throw errors::io_error(\"Bad output stream\");\n}",
  "namespace {\nvoid check(std::ostream& os) {\n  if (os.fail()) throw errors::io_error(\"Bad output stream\");\n}\n}  // namespace\n\nvoid ostream_output_stream::write(const char* p, std::size_t l) {\n  os_.write(p, l);\n  check(os_);\n}\n\nvoid ostream_output_stream::putc(char c) {\n  os_.put(c);\n  check(os_);\n}"))
r("iostream_get_int", "S13", ("iostream_adapters.cpp", "  char c;\n  if (is_.get(c)) {\n    return c;\n  }\n  if (is_.eof() && !is_.bad()) throw errors::eof(\"EOF\");\n  throw errors::io_error(\"Bad input stream\");",
  "  char c;\n  is_.get(c);\n  if (!is_) {\n    if (is_.bad() || !is_.eof()) throw errors::io_error(\"Bad input stream\");\n    throw errors::eof(\"EOF\");\n  }\n  return c;"))
r("mac_helper", "S08 S10", ("packet_codecs.cpp", "  for (std::size_t i = 0; i < sizeof(std::uint64_t); i++) {\n    data.push_back(hash & 0xff);\n    hash >>= 8;\n  }", "  for (unsigned shift = 0; shift < 64; shift += 8) {\n    data.push_back(static_cast<char>(hash >> shift));\n  }"))
r("mac_decode_index", "S08 S10", ("packet_codecs.cpp", "  const std::uint8_t* ptr =\n      reinterpret_cast<const std::uint8_t*>(data.data()) + original_size;\n  for (std::size_t i = 0; i < sizeof(std::uint64_t); i++) {\n    if (*ptr++ != (hash & 0xff)) {\n      throw errors::data_mismatch(\"Hash mismatch in MAC decode\");\n    }\n    hash >>= 8;\n  }",
  "  bool same = true;\n  for (std::size_t i = 0; i < sizeof(std::uint64_t); i++) {\n    same &= static_cast<std::uint8_t>(data[original_size + i]) ==\n            static_cast<std::uint8_t>(hash >> (8 * i));\n  }\n  if (!same) throw errors::data_mismatch(\"Hash mismatch in MAC decode\");"))
r("mac_erase", "S08 S10", ("packet_codecs.cpp", "  data.resize(original_size);\n}\n\nconstexpr", "  data.erase(original_size);\n}\n\nconstexpr"))
r("cobs_decode_for", "S07 S10", ("packet_codecs.cpp", "    std::size_t count = static_cast<std::uint8_t>(*src++) - 1;\n    for (std::size_t i = 0; i < count; i++) {\n      if (src >= data.end()) {\n        throw errors::data_mismatch(\"Truncated COBS-encoded data\");\n      }\n      *dst++ = *src++;\n    }\n    if (count < 254) {\n      *dst++ = '\\0';\n    }",
  "    const std::size_t code = static_cast<std::uint8_t>(*src++);\n    std::size_t left = code - 1;\n    while (left > 0) {\n      if (src >= data.end()) {\n        throw errors::data_mismatch(\"Truncated COBS-encoded data\");\n      }\n      *dst++ = *src++;\n      --left;\n    }\n    if (code != 255) *dst++ = '\\0';"))
r("cobs_encode_order", "S07", ("packet_codecs.cpp", "    while (*current_char && run_length < 254) {\n      ++current_char;\n      ++run_length;\n    }", "    while (run_length < 254 && *current_char != '\\0') {\n      ++run_length;\n      ++current_char;\n    }"))
r("cobs_overhead", "S07", ("packet_codecs.cpp", "  std::size_t overhead = 1 + original_size / 254;\n  data.resize(original_size + overhead * +1);\n  data[original_size] = '\\0';", "  const std::size_t overhead = original_size / 254 + 1;\n  data.resize(original_size + overhead, '\\0');"))
r("serial_do", "S10", ("packet_protocols.h", "    while (char c = in.getc()) {\n      if (packet.size() >= max_packet_size) {\n        throw errors::out_of_range(\"Exceeded max packet size when reading.\");\n      }\n      packet.push_back(c);\n    }",
  "    for (;;) {\n      const char c = in.getc();\n      if (c == '\\0') break;\n      if (packet.size() == max_packet_size) {\n        throw errors::out_of_range(\"Exceeded max packet size when reading.\");\n      }\n      packet += c;\n    }"))
r("serial_param", "S10", ("packet_protocols.h", "    std::string packet = std::move(data);\n    mac_.encode(packet);\n    cobs_.encode(packet);\n    out.write(packet.data(), packet.size());\n    out.putc('\\0');", "    mac_.encode(data);\n    cobs_.encode(data);\n    data.push_back('\\0');\n    out.write(data.data(), data.size());"))
r("variant_while", "S01 S02 S05 S03", ("binary_codecs.h", "    do {\n      uint8_t o = static_cast<uint8_t>(l & 0x7f);\n      l >>= 7;\n      if (l) {\n        o |= 0x80;\n      }\n      (*this)(o);\n    } while (l);", "    while (l >= 0x80) {\n      (*this)(static_cast<uint8_t>((l & 0x7f) | 0x80));\n      l >>= 7;\n    }\n    (*this)(static_cast<uint8_t>(l));"))
r("flag_write", "S02", ("binary_codecs.h", "    while (l-- > 0) {\n      (*this)(*p++);\n    }", "    for (std::size_t i = 0; i < l; ++i) (*this)(p[i]);"))
r("optional_order", "S01 S05", ("binary_codecs.h", "    if (present) {\n      o.emplace();\n      (*this)(o.value());\n    } else {\n      o.reset();\n    }", "    o.reset();\n    if (!present) return;\n    o.emplace();\n    (*this)(*o);"))
r("shared_switch", "S03 S05", ("binary_codecs.h", "    // Are we reading a new object?\n    bool first_time = false;\n\n", ""), ("binary_codecs.h", "          shared_object_info{nullptr, registry::get_type_id<T>()});\n      first_time = true;\n    }\n\n    // Get the shared object info.\n    auto& object_info = shared_object_vector_[object_id];\n\n    if (first_time) {\n      // Deserialize the object the first time.\n      load_object_reference(p, update_pointer(object_info.ptr));\n    } else {",
  "          shared_object_info{nullptr, registry::get_type_id<T>()});\n      load_object_reference(p,\n                            update_pointer(shared_object_vector_.back().ptr));\n    } else {\n      const auto& object_info = shared_object_vector_[object_id];"))
r("shared_count", "S03 S02", ("binary_codecs.h", "    auto it = shared_object_map_.find(address);\n    bool first_time = false;\n    if (it == shared_object_map_.end()) {\n      std::size_t next_object_id = shared_object_map_.size();\n      it = shared_object_map_.emplace(address, next_object_id).first;\n      first_time = true;\n    }\n    write_variant(it->second);\n    if (first_time) {\n      save_object_reference(*p);\n    }",
  "    const auto [it, is_new] =\n        shared_object_map_.emplace(address, shared_object_map_.size());\n    write_variant(it->second);\n    if (is_new) save_object_reference(*p);"))
r("class_index", "S04 S05", ("binary_codecs.h", "    const auto& info = class_info_vector_[class_id];\n\n    // Check that the subclass is compatible (slow).\n    if (!registry::dynamic_subclass_registry<T>::get().is_subclass(\n            info.class_name))\n      throw errors::data_mismatch(\n          \"The class that was read is not a subclass of pointed-to type\");\n\n    // Instantiate the object.\n    ptr.reset(static_cast<T*>(info.factory_function()));",
  "    const seen_class_info info = class_info_vector_[class_id];\n\n    // Check that the subclass is compatible (slow).\n    const auto& subclasses = registry::dynamic_subclass_registry<T>::get();\n    if (!const_cast<registry::dynamic_subclass_registry<T>&>(subclasses)\n             .is_subclass(info.class_name)) {\n      throw errors::data_mismatch(\n          \"The class that was read is not a subclass of pointed-to type\");\n    }\n\n    // Instantiate the object.\n    ::arpc::dynamic_base_class* const object = info.factory_function();\n    ptr.reset(static_cast<T*>(object));"))
r("class_lookup", "S04 S02", ("binary_codecs.h", "      typename registry::dynamic_object_factory::info class_info;\n      typename registry::dynamic_encoder_registry<MyClass>::info encoder_info;\n      class_info = registry::dynamic_object_factory::get()[class_name];\n      encoder_info =\n          registry::dynamic_encoder_registry<MyClass>::get()[class_name];\n      std::size_t next_class_id = class_info_map_.size();",
  "      const auto encoder_info =\n          registry::dynamic_encoder_registry<MyClass>::get()[class_name];\n      const auto class_info =\n          registry::dynamic_object_factory::get()[class_name];\n      const std::size_t next_class_id = class_info_map_.size();"))
r("registry_find", "S17 S04", ("registry.cpp", "  const auto it = factory_function_map_.find(class_name);\n  if (it == factory_function_map_.end())\n    throw errors::not_found(\"Class factory function not found\");\n  return it->second;", "  if (const auto it = factory_function_map_.find(class_name);\n      it != factory_function_map_.end()) {\n    return it->second;\n  }\n  throw errors::not_found(\"Class factory function not found\");"))
r("registry_emplace", "S17", ("registry.h", "    if (!encoder_info_map_.emplace(class_name, info{(f)}).second)\n      throw errors::invalid_state(\"Duplicate encoder function registered\");", "    if (encoder_info_map_.find(class_name) != encoder_info_map_.end())\n      throw errors::invalid_state(\"Duplicate encoder function registered\");\n    encoder_info_map_.emplace(class_name, info{f});"))
r("registry_subclass", "S17 S04", ("registry.h", "    return dynamic_subclass_set_.count(class_name) == 1;", "    return dynamic_subclass_set_.find(class_name) != dynamic_subclass_set_.end();"))
r("errors_invert", "S14", ("errors.cpp", "  if (it == error_function_map_.end()) {\n    // If we don't know the error type, just use unknown_error.\n    throw errors::unknown_error(what);\n  }\n  // Throw the specific error type otherwise.\n  it->second(what);", "  if (it != error_function_map_.end()) {\n    it->second(what);\n  } else {\n    throw errors::unknown_error(what);\n  }"))
r("errors_codes", "S14", ("errors.cpp", "  if (code == EINPROGRESS || code == EALREADY || code == EISCONN) {\n    // This is just an ongoing non-blocking connection. Nothing to see here.\n    return;\n  }\n  if (code == EAGAIN || code == EWOULDBLOCK) {\n    throw errors::try_again(\"Try again\");\n  }\n  throw errors::io_error(message + std::string(\": \") + std::to_string(code));",
  "  switch (code) {\n    case EINPROGRESS:\n    case EALREADY:\n    case EISCONN:\n      return;\n    case EAGAIN:\n      throw errors::try_again(\"Try again\");\n    default: {\n      std::string text(message);\n      text += \": \";\n      text += std::to_string(code);\n      throw errors::io_error(text);\n    }\n  }"))
r("errors_analyze", "S14 S15", ("errors.cpp", "  std::string type, what;\n\n  if (exc) {\n    try {\n      std::rethrow_exception(exc);\n    } catch (const errors::base_error& e) {\n      type = e.portable_error_class_name();\n      what = e.what();\n    } catch (const std::exception& e) {\n      what = e.what();\n    } catch (...) {\n    }\n  }\n\n  return {type, what};",
  "  if (!exc) return {};\n  try {\n    std::rethrow_exception(exc);\n  } catch (const errors::base_error& e) {\n    return {std::string(e.portable_error_class_name()), e.what()};\n  } catch (const std::exception& e) {\n    return {std::string(), e.what()};\n  } catch (...) {\n    return {};\n  }"))
r("holder_swap", "S15", ("result_holder.h", "    value_.swap(other.value_);\n    exception_.swap(other.exception_);", "    using std::swap;\n    swap(exception_, other.exception_);\n    swap(value_, other.value_);"))
r("holder_check", "S15", ("result_holder.h", "    if (exception_) {\n      std::rethrow_exception(exception_);\n    }\n    if (!value_) throw errors::invalid_state(\"Empty result holder accessed\");", "    if (exception_ == nullptr && value_) return;\n    if (exception_ != nullptr) std::rethrow_exception(exception_);\n    throw errors::invalid_state(\"Empty result holder accessed\");"))
r("holder_save", "S15", ("result_holder.h", "    e(value_);\n    if (exception_) {\n      e(true);\n      auto [type, message] = error_factory::analyze_exception(exception_);\n      e(type);\n      e(message);\n    } else {\n      e(false);\n    }", "    const bool failed = exception_ != nullptr;\n    e(value_);\n    e(failed);\n    if (!failed) return;\n    const auto analysis = error_factory::analyze_exception(exception_);\n    e(analysis.first);\n    e(analysis.second);"))
r("holder_deref", "S15", ("result_holder.h", "  const value_type& value() const& {\n    maybe_throw();\n    return *value_;\n  }", "  const value_type& value() const& { return **this; }"))
r("flat_find", "S11", ("container/detail/flat_tree.h", "    auto it = lower_bound(key);\n    if (it != end() && eq_(*it, key)) {\n      return it;\n    }\n    return end();", "    const auto range = equal_range(key);\n    return range.first == range.second ? end() : range.first;"))
r("flat_find2", "S11", ("container/detail/flat_tree.h", "    auto it = lower_bound(key);\n    if (it != end() && eq_(*it, key)) {\n      return it;\n    }\n    return end();", "    auto it = lower_bound(key);\n    const bool found = it != end() && eq_(*it, key);\n    return found ? it : end();"))
r("flat_count", "S11", ("container/detail/flat_tree.h", "    auto iters = equal_range(key);\n    return iters.second - iters.first;\n  }\n\n  // find.", "    return std::distance(lower_bound(key), upper_bound(key));\n  }\n\n  // find."))
r("flat_insert_sort", "S11", ("container/detail/flat_tree.h", "    std::stable_sort(begin(), end(), comp_);\n    if constexpr (!multiple_allowed) {\n      this->erase(std::unique(begin(), end(), eq_), end());\n    }\n    return *this;", "    sort_and_trim();\n    return *this;"), ("container/detail/flat_tree.h", " protected:\n  value_compare comp_;\n  value_equal eq_;", " protected:\n  void sort_and_trim() {\n    std::stable_sort(begin(), end(), comp_);\n    if constexpr (!multiple_allowed) {\n      const auto tail = std::unique(begin(), end(), eq_);\n      underlying_container::erase(tail, end());\n    }\n  }\n\n  value_compare comp_;\n  value_equal eq_;"))
r("flat_assign", "S12", ("container/detail/flat_tree.h", "    underlying_container::operator=(other);\n    comp_ = other.comp_;\n    eq_ = other.eq_;\n    return *this;", "    if (this != &other) {\n      flat_tree copy(other);\n      swap(copy);\n    }\n    return *this;"))
r("flat_bracket", "S11", ("container/flat_map.h", "    auto it = this->lower_bound(key);\n    if (it != this->end() && this->eq_(*it, key)) {\n      return it->second;\n    }\n    it = underlying_container::emplace(it, key, T());\n    return it->second;", "    auto it = this->find(key);\n    if (it == this->end()) it = this->emplace(key, T()).first;\n    return it->second;"))
r("flat_at", "S11", ("container/flat_map.h", "    auto it = this->find(key);\n    if (it == this->end()) {\n      throw std::out_of_range(\"key not found.\");\n    }\n    return it->second;", "    if (auto it = this->find(key); it != this->end()) return it->second;\n    throw std::out_of_range(\"key not found.\");"))
r("flat_equal_range", "S11", ("container/detail/flat_tree.h", "    return std::equal_range(begin(), end(), key, comp_);", "    return {lower_bound(key), upper_bound(key)};"))
r("hash_append_copy", "S09", ("highway_hash.cpp", "  for (i = 0; i < num; i++) {\n    packet_[buffered_bytes_] = bytes[i];\n    buffered_bytes_++;\n  }", "  std::copy(bytes, bytes + num, packet_ + buffered_bytes_);\n  buffered_bytes_ += num;"))
r("hash_min", "S09", ("highway_hash.cpp", "    size_t num_add =\n        num > (32u - buffered_bytes_) ? (32u - buffered_bytes_) : num;\n    for (i = 0; i < num_add; i++) {\n      packet_[buffered_bytes_ + i] = bytes[i];\n    }\n    buffered_bytes_ += num_add;", "    const size_t num_add = std::min<size_t>(num, 32u - buffered_bytes_);\n    for (i = 0; i < num_add; i++) {\n      packet_[buffered_bytes_++] = bytes[i];\n    }"))
r("hash_read_loop", "S09", ("highway_hash.cpp", "  return static_cast<std::uint64_t>(src[0]) |\n         (static_cast<std::uint64_t>(src[1]) << 8) |\n         (static_cast<std::uint64_t>(src[2]) << 16) |\n         (static_cast<std::uint64_t>(src[3]) << 24) |\n         (static_cast<std::uint64_t>(src[4]) << 32) |\n         (static_cast<std::uint64_t>(src[5]) << 40) |\n         (static_cast<std::uint64_t>(src[6]) << 48) |\n         (static_cast<std::uint64_t>(src[7]) << 56);", "  std::uint64_t r = 0;\n  for (int i = 7; i >= 0; --i) r = (r << 8) | src[i];\n  return r;"))
r("hash_rot", "S09", ("highway_hash.cpp", "  permuted[0] = (v[2] >> 32) | (v[2] << 32);\n  permuted[1] = (v[3] >> 32) | (v[3] << 32);\n  permuted[2] = (v[0] >> 32) | (v[0] << 32);\n  permuted[3] = (v[1] >> 32) | (v[1] << 32);", "  for (int i = 0; i < 4; ++i) {\n    const std::uint64_t x = v[(i + 2) % 4];\n    permuted[i] = (x >> 32) | (x << 32);\n  }"))
r("hash_all", "S09", ("highway_hash.cpp", "  std::size_t i;\n  for (i = 0; i + 32 <= size; i += 32) {\n    update_packet(data + i);\n  }\n  if ((size & 31) != 0) update_remainder(data + i, size & 31);", "  while (size >= 32) {\n    update_packet(data);\n    data += 32;\n    size -= 32;\n  }\n  if (size != 0) update_remainder(data, size);"))
r("address_copy", "S16", ("address.cpp", "  memcpy(ai_addr, other.ai_addr, ai_addrlen);", "  std::memmove(ai_addr, other.ai_addr, other.ai_addrlen);"))
r("address_move", "S16", ("address.cpp", "  std::swap(ai_addr, other.ai_addr);\n  std::swap(ai_addrlen, other.ai_addrlen);", "  ai_addr = std::exchange(other.ai_addr, nullptr);\n  ai_addrlen = std::exchange(other.ai_addrlen, 0);"), ("address.cpp", "#include <string>\n", "#include <string>\n#include <utility>\n"))
r("address_size_loop", "S16", ("address.cpp", "  return std::distance(begin(), end());", "  size_type n = 0;\n  for (auto it = begin(); it != end(); ++it) ++n;\n  return n;"))

"""Edits that keep the behaviour, in the half of the library that needs function2."""
R = []
def r(id, props, *edits, nth=0): R.append(dict(id=id, props=props.split(), edits=list(edits), nth=nth))
r("channel_assign_reset", "A01 A02", ("channel.cpp", "  channel tmp;\n  tmp.swap(fd);\n  swap(tmp);\n  return *this;", "  reset(fd.release());\n  return *this;"))
r("channel_move_release", "A01", ("channel.cpp", "channel::channel(channel&& fd) noexcept : fd_(-1) { swap(fd); }", "channel::channel(channel&& fd) noexcept : fd_(fd.release()) {}"))
r("channel_dtor_close", "A01", ("channel.cpp", "  if (fd_ >= 0) {\n    ::close(fd_);  // Ignore close-time errors to prevent exceptions.\n  }", "  if (!*this) return;\n  // Ignore close-time errors to prevent exceptions.\n  (void)::close(release());"))
r("channel_reset_direct", "A01", ("channel.cpp", "  channel tmp(fd);\n  swap(tmp);\n}\n\nchannel::operator bool", "  const int old = fd_;\n  fd_ = fd;\n  if (old >= 0) ::close(old);\n}\n\nchannel::operator bool"))
r("channel_read_switch", "A02", ("channel.cpp", "  if (num < 0) throw_io_error(\"Error reading\");\n  if (num == 0) throw errors::eof(\"End of channel\");\n  return static_cast<std::size_t>(num);", "  if (num > 0) return static_cast<std::size_t>(num);\n  if (num == 0) throw errors::eof(\"End of channel\");\n  throw_io_error(\"Error reading\");"))
r("channel_nonblock_steps", "A02", ("channel.cpp", "  if (int flags;\n      (flags = fcntl(fd_, F_GETFL)) < 0 ||\n      fcntl(fd_, F_SETFL,\n            non_blocking ? (flags | O_NONBLOCK) : (flags & ~O_NONBLOCK)) < 0)\n    throw_io_error(\"Error making channel descriptor non-blocking\");\n  return *this;",
  "  int flags = fcntl(fd_, F_GETFL);\n  if (flags >= 0) {\n    flags &= ~O_NONBLOCK;\n    if (non_blocking) flags |= O_NONBLOCK;\n    flags = fcntl(fd_, F_SETFL, flags);\n  }\n  if (flags < 0) throw_io_error(\"Error making channel descriptor non-blocking\");\n  return *this;"))
r("channel_shutdown_table", "A02", ("channel.cpp", "  int how;\n  if (read && write) {\n    how = SHUT_RDWR;\n  } else if (read) {\n    how = SHUT_RD;\n  } else if (write) {\n    how = SHUT_WR;\n  } else {\n    return *this;\n  }", "  if (!read && !write) return *this;\n  const int how = read ? (write ? SHUT_RDWR : SHUT_RD) : SHUT_WR;"))
r("channel_option_helper", "A02", ("channel.cpp", "channel& channel::keep_alive(bool keep_alive) {\n  int value = keep_alive;\n  if (::setsockopt(fd_, SOL_SOCKET, SO_KEEPALIVE, &value, sizeof(value)))\n    throw_io_error(\"Error setting keep_alive\");\n  return *this;\n}", "namespace {\nvoid set_option(int fd, int level, int name, int value, const char* what) {\n  if (::setsockopt(fd, level, name, &value, sizeof(value))) throw_io_error(what);\n}\n}  // namespace\n\nchannel& channel::keep_alive(bool keep_alive) {\n  set_option(fd_, SOL_SOCKET, SO_KEEPALIVE, keep_alive ? 1 : 0, \"Error setting keep_alive\");\n  return *this;\n}"),
  ("channel.cpp", "  int value = reuse;\n  if (::setsockopt(fd_, SOL_SOCKET, SO_REUSEPORT, &value, sizeof(value)))\n    throw_io_error(\"Error setting reuse_port\");", "  set_option(fd_, SOL_SOCKET, SO_REUSEPORT, reuse, \"Error setting reuse_port\");"))
r("file_switch", "A02", ("file.cpp", "  channel res(\n      ::open(path.c_str(), posix_modes[static_cast<std::size_t>(mode)], 0666));\n  if (!res)", "  const int flags = posix_modes[static_cast<std::size_t>(mode)];\n  const int fd = ::open(path.data(), flags, 0666);\n  channel res(fd);\n  if (fd < 0)"))
r("pipe_swap", "A01 A04", ("pipe.cpp", "  fds[0].reset(fd[0]);\n  fds[1].reset(fd[1]);\n#else", "  channel out(fd[1]), in(fd[0]);\n  fds[1] = std::move(out);\n  fds[0] = std::move(in);\n#else"), ("pipe.cpp", "namespace arpc {\n\n#ifdef ESP", "#include <utility>\nnamespace arpc {\n\n#ifdef ESP"))
r("flag_early_return", "A04 A03", ("flag.cpp", "  std::scoped_lock lock(mu_);\n  if (!set_) {\n    pipe_[1].maybe_write(\"*\", 1);\n    set_ = true;\n  }", "  std::unique_lock<std::mutex> lock(mu_);\n  if (set_) return;\n  const char token = '!';\n  pipe_[1].maybe_write(&token, sizeof(token));\n  set_ = true;\n  lock.unlock();"))
r("flag_reset_exchange", "A04", ("flag.cpp", "  if (set_) {\n    char c;\n    pipe_[0].maybe_read(&c, 1);\n    set_ = false;\n  }", "  if (!set_) return;\n  char c[1];\n  pipe_[0].maybe_read(c, sizeof(c));\n  set_ = !set_;"))
r("flag_wait_cond", "A04", ("flag.cpp", "    if (!is_set()) {\n      throw errors::try_again(\"Flag not yet set\");\n    }", "    if (*this) return;\n    throw errors::try_again(\"Flag not yet set\");"))
r("mutex_try_read", "A04", ("mutex.cpp", "  try {\n    maybe_lock();\n    return true;\n  } catch (const errors::try_again&) {\n    return false;\n  }", "  bool locked = false;\n  try {\n    maybe_lock();\n    locked = true;\n  } catch (const errors::try_again&) {\n  }\n  return locked;"))
r("mutex_init_unlock", "A04", ("mutex.cpp", "  pipe_[1].make_non_blocking();\n  pipe_[1].maybe_write(\"*\", 1);\n}", "  pipe_[1].make_non_blocking();\n  unlock();\n}"))
r("queue_flags_helper", "A03", ("queue.h", "    if (data_.size() == 0) {\n      can_get_.reset();\n    } else {\n      can_get_.set();\n    }\n    if (data_.size() == max_size_) {\n      can_put_.reset();\n    } else {\n      can_put_.set();\n    }", "    const auto n = data_.size();\n    update(can_put_, n != max_size_);\n    update(can_get_, n != 0);\n  }\n\n  static void update(flag& f, bool ready) {\n    if (ready) {\n      f.set();\n    } else {\n      f.reset();\n    }"))
r("queue_get_direct", "A03", ("queue.h", "    std::scoped_lock lock(mu_);\n    value_type result;\n    if (data_.size() == 0) throw errors::try_again(\"Queue is empty\");\n    result = std::move(data_.front());\n    data_.pop();\n    update_flags();\n    return result;", "    std::lock_guard<std::mutex> lock(mu_);\n    if (data_.empty()) throw errors::try_again(\"Queue is empty\");\n    value_type result(std::move(data_.front()));\n    data_.pop();\n    update_flags();\n    return result;"))
r("queue_full_const", "A03", ("queue.h", "    if (data_.size() == max_size_) throw errors::try_again(\"Queue is full\");\n    data_.push(std::forward<U>(u));", "    if (data_.size() >= max_size_) throw errors::try_again(\"Queue is full\");\n    data_.emplace(std::forward<U>(u));"))
r("queue_void_compound", "A03", ("queue.h", "    size_++;\n    update_flags();", "    size_ += 1;\n    update_flags();"), ("queue.h", "    if (size_ == 0) throw errors::try_again(\"Queue is empty\");\n    size_--;", "    if (!size_) throw errors::try_again(\"Queue is empty\");\n    --size_;"))
r("select_pollfd_events", "A07", ("select.h", "  return {awaitable.get_fd(),\n          static_cast<short> /* NOLINT(runtime/int) */ (\n              awaitable.for_write() ? (POLLOUT | POLLERR | POLLHUP | POLLNVAL)\n                                    : (POLLIN | POLLERR | POLLHUP | POLLNVAL)),\n          0};", "  pollfd fd{};\n  fd.fd = awaitable.get_fd();\n  fd.events = awaitable.for_write() ? POLLOUT : POLLIN;\n  fd.events |= POLLERR | POLLHUP | POLLNVAL;\n  return fd;"))
r("select_active_expr", "A07", ("select.h", "  bool active;\n  if (was_timeout) {\n    active = (a.timeout() >= std::chrono::milliseconds::zero() &&\n              (a.timeout() <= min_timeout || (min_timeout_is_polling && a.for_polling())));\n  } else {\n    active = (fd.revents != 0);\n  }\n\n  result_holder<typename A::return_type> res;\n\n  if (active) {", "  result_holder<typename A::return_type> res;\n\n  const auto t = a.timeout();\n  const bool expired = t.count() >= 0 && ((min_timeout_is_polling && a.for_polling()) || !(t > min_timeout));\n  if (was_timeout ? expired : fd.revents != 0) {"))
r("select_give_up_helper", "A07", ("select.h", "    if (cancelled) {\n      *cancelled;\n    }", "    if (cancelled.has_value()) cancelled.value();"))
r("select_loop_any", "A07", ("select.h", "    for (const auto& r : v) {\n      if (r) return true;\n    }\n    return false;", "    return std::any_of(v.begin(), v.end(), [](const result_type& r) { return bool(r); });"), ("select.h", "struct select_output_helper<std::vector<result_holder<T>>> {\n  using result_type = std::vector<result_holder<T>>;", "struct select_output_helper<std::vector<result_holder<T>>> {\n  using result_type = std::vector<result_holder<T>>;\n  // Lists."))
r("context_deadline_ternary", "A06", ("context.cpp", "  if (!deadline_ || *deadline_ > when) {\n    deadline_ = when;\n  }", "  if (deadline_) {\n    deadline_ = std::min(*deadline_, when);\n  } else {\n    deadline_.emplace(when);\n  }"), ("context.cpp", "#include <utility>\n", "#include <algorithm>\n#include <utility>\n"))
r("context_cancel_order", "A06", ("context.cpp", "  for (auto* child : children_) {\n    child->cancel();\n  }\n  cancelled_.set();", "  cancelled_.set();\n  for (auto it = children_.begin(); it != children_.end(); ++it) {\n    (*it)->cancel();\n  }"))
r("context_dtor_loop", "A06", ("context.cpp", "  std::unique_lock lock(children_mu_);\n  child_detached_.wait(lock, [this]() { return children_.empty(); });", "  std::unique_lock<std::mutex> lock(children_mu_);\n  while (!children_.empty()) child_detached_.wait(lock);"))
r("context_dtor_current_first", "A06", ("context.cpp", "  cancel();\n\n  if (parent_) parent_->remove_child(this);\n  if (set_current_) current_ = previous_;", "  if (set_current_) current_ = previous_;\n\n  cancel();\n  if (parent_ != nullptr) {\n    parent_->remove_child(this);\n  }"))
r("context_ctor_reorder", "A06", ("context.cpp", "    if (!shield) {\n      parent_->add_child(this);\n    }\n    std::scoped_lock lock(parent_->data_mu_);\n    deadline_ = parent_->deadline_;\n    data_ = parent_->data_;\n  }", "    {\n      std::lock_guard<std::mutex> lock(parent.data_mu_);\n      data_ = parent.data_;\n      deadline_ = parent.deadline_;\n    }\n    if (!shield) parent.add_child(this);\n  }"))
r("context_left_now", "A06", ("context.cpp", "  std::scoped_lock lock(data_mu_);\n  if (deadline_) {\n    return std::chrono::duration_cast<duration>(\n        *deadline_ - std::chrono::system_clock::now());\n  } else {\n    return std::nullopt;\n  }", "  const auto when = deadline();\n  if (!when) return std::nullopt;\n  return std::chrono::duration_cast<duration>(*when - std::chrono::system_clock::now());"))
r("context_get_ptr", "A06", ("context.h", "    auto it = data_.find(portable_class_name<T>());\n    if (it != data_.end()) {\n      return static_cast<const T&>(*it->second);\n    } else {\n      return default_instance<T>();\n    }", "    const auto it = data_.find(portable_class_name<T>());\n    if (it == data_.end()) return default_instance<T>();\n    const dynamic_base_class& object = *it->second;\n    return static_cast<const T&>(object);"))
r("context_wait_early", "A06", ("context.cpp", "  std::scoped_lock lock(data_mu_);\n  if (deadline_) {\n    return arpc::deadline(*deadline_).then([]() {\n      throw errors::deadline_exceeded(\"Deadline exceeded\");\n    });\n  } else {\n    return arpc::never();\n  }", "  std::lock_guard<std::mutex> lock(data_mu_);\n  if (!deadline_.has_value()) return arpc::never();\n  const auto when = deadline_.value();\n  return arpc::deadline(when).then(\n      []() { throw errors::deadline_exceeded(\"Deadline exceeded\"); });"))

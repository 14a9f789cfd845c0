#include "ghost.h"
#include "arpc/iostream_adapters.h"
#include "arpc/string_adapters.h"
// subclasses that implement one primitive only, as io_adapters.h allows
struct only_getc : arpc::input_stream {
  std::size_t read(char* p, std::size_t l) override { return input_stream::read(p, l); }
  char getc() override { return ghost_getc(this); }
};
struct only_read : arpc::input_stream {
  std::size_t read(char* p, std::size_t l) override { return ghost_read(this, p, l); }
  char getc() override { return input_stream::getc(); }
};
struct only_putc : arpc::output_stream {
  void write(const char* p, std::size_t l) override { output_stream::write(p, l); }
  void putc(char c) override { ghost_putc(this, c); }
  void flush() override { ghost_flush(this); }
};
struct only_write : arpc::output_stream {
  void write(const char* p, std::size_t l) override { ghost_write(this, p, l); }
  void putc(char c) override { output_stream::putc(c); }
  void flush() override { ghost_flush(this); }
};
extern "C" {
std::size_t d_read_over_getc(char* p, std::size_t l) { only_getc s; arpc::input_stream& i = s; return i.read(p, l); }
char d_getc_over_read() { only_read s; arpc::input_stream& i = s; return i.getc(); }
void d_read_fully(char* p, std::size_t l) { ghost_in s; arpc::input_stream& i = s; i.read_fully(p, l); }
void d_write_over_putc(const char* p, std::size_t l) { only_putc s; arpc::output_stream& o = s; o.write(p, l); }
void d_putc_over_write(char c) { only_write s; arpc::output_stream& o = s; o.putc(c); }
std::size_t d_str_ctor(const std::string& s, std::size_t p) { arpc::string_input_stream i(s, p); return i.pos(); }
std::size_t d_str_read(const std::string& s, std::size_t p, char* b, std::size_t l, std::size_t* after) {
  arpc::string_input_stream i(s, p); std::size_t r = i.read(b, l); *after = i.pos(); return r; }
char d_str_getc(const std::string& s, std::size_t p, std::size_t* after) {
  arpc::string_input_stream i(s, p); struct set { arpc::string_input_stream& i; std::size_t* a; ~set() { *a = i.pos(); } } g{i, after}; return i.getc(); }
std::size_t d_str_setpos(const std::string& s, std::size_t p, std::size_t q, std::size_t* after) {
  arpc::string_input_stream i(s, p); struct set { arpc::string_input_stream& i; std::size_t* a; ~set() { *a = i.pos(); } } g{i, after}; i.pos(q); return i.pos(); }
void d_str_write(std::string& s, const char* p, std::size_t l) { arpc::string_output_stream o(s); o.write(p, l); o.flush(); }
void d_str_putc(std::string& s, char c) { arpc::string_output_stream o(s); o.putc(c); o.flush(); }
std::size_t d_is_read(std::istream& s, char* b, std::size_t l) { arpc::istream_input_stream i(s); return i.read(b, l); }
char d_is_getc(std::istream& s) { arpc::istream_input_stream i(s); return i.getc(); }
void d_os_write(arpc::ostream_output_stream& o, const char* p, std::size_t l) { o.ostream_output_stream::write(p, l); }
void d_os_putc(arpc::ostream_output_stream& o, char c) { o.ostream_output_stream::putc(c); }
void d_os_flush(arpc::ostream_output_stream& o) { o.ostream_output_stream::flush(); }
}

// Ghost streams: the abstract byte source and sink that codec and protocol contracts are stated over.
#pragma once
#include <cstddef>
#include "arpc/io_adapters.h"
extern "C" {
std::size_t ghost_read(void*, char*, std::size_t);
char ghost_getc(void*);
void ghost_write(void*, const char*, std::size_t);
void ghost_putc(void*, char);
void ghost_flush(void*);
}
struct ghost_in : arpc::input_stream {
  std::size_t read(char* p, std::size_t l) override { return ghost_read(this, p, l); }
  char getc() override { return ghost_getc(this); }
};
struct ghost_out : arpc::output_stream {
  void write(const char* p, std::size_t l) override { ghost_write(this, p, l); }
  void putc(char c) override { ghost_putc(this, c); }
  void flush() override { ghost_flush(this); }
};

// Stream implementations for the harnesses.
#ifndef VERIF_STREAMS_H_
#define VERIF_STREAMS_H_
#include <memory>
#include <algorithm>
#include <cstring>
#include <sstream>
#include <string>
#include "arpc/errors.h"
#include "arpc/io_adapters.h"
#include "arpc/iostream_adapters.h"
#include "arpc/string_adapters.h"

namespace vs {
// Only single-byte operations of its own.
struct char_out : arpc::output_stream {
  std::string& s;
  explicit char_out(std::string& s) : s(s) {}
  void write(const char* p, std::size_t l) override { arpc::output_stream::write(p, l); }
  void putc(char c) override { s.push_back(c); }
  void flush() override {}
};
// Only block operations of its own.
struct block_out : arpc::output_stream {
  std::string& s;
  explicit block_out(std::string& s) : s(s) {}
  void write(const char* p, std::size_t l) override { s.append(p, l); }
  void putc(char c) override { arpc::output_stream::putc(c); }
  void flush() override {}
};
struct char_in : arpc::input_stream {
  const std::string& s;
  std::size_t pos = 0;
  explicit char_in(const std::string& s) : s(s) {}
  std::size_t read(char* p, std::size_t l) override { return arpc::input_stream::read(p, l); }
  char getc() override {
    if (pos >= s.size()) throw arpc::errors::eof("EOF");
    return s[pos++];
  }
};
struct block_in : arpc::input_stream {
  const std::string& s;
  std::size_t pos = 0;
  explicit block_in(const std::string& s) : s(s) {}
  std::size_t read(char* p, std::size_t l) override {
    l = std::min(l, s.size() - pos);
    if (l) std::memcpy(p, s.data() + pos, l);
    pos += l;
    return l;
  }
  char getc() override { return arpc::input_stream::getc(); }
};
// An output of the given kind that ends up in `s`.
struct Out {
  std::string& s;
  std::ostringstream os;
  std::unique_ptr<arpc::output_stream> o;
  int kind;
  Out(std::string& s, int kind) : s(s), kind(kind) {
    if (kind == 0) o = std::make_unique<arpc::string_output_stream>(s);
    else if (kind == 1) o = std::make_unique<arpc::ostream_output_stream>(os);
    else if (kind == 2) o = std::make_unique<char_out>(s);
    else o = std::make_unique<block_out>(s);
  }
  arpc::output_stream& operator*() { return *o; }
  void finish() {
    o.reset();
    if (kind == 1) s = os.str();
  }
};
struct In {
  const std::string& s;
  std::istringstream is;
  std::unique_ptr<arpc::input_stream> i;
  int kind;
  In(const std::string& s, int kind) : s(s), is(kind == 1 ? s : std::string()), kind(kind) {
    if (kind == 0) i = std::make_unique<arpc::string_input_stream>(s);
    else if (kind == 1) i = std::make_unique<arpc::istream_input_stream>(is);
    else if (kind == 2) i = std::make_unique<char_in>(s);
    else i = std::make_unique<block_in>(s);
  }
  arpc::input_stream& operator*() { return *i; }
  // Bytes consumed so far; only valid while the stream has not hit its end.
  std::size_t pos() {
    switch (kind) {
      case 0: return static_cast<arpc::string_input_stream&>(*i).pos();
      case 1: { auto p = is.tellg(); return p < 0 ? s.size() : static_cast<std::size_t>(p); }
      case 2: return static_cast<char_in&>(*i).pos;
      default: return static_cast<block_in&>(*i).pos;
    }
  }
};
}  // namespace vs
#endif

// Files of the harnesses: anonymous memory files, and numbers written and read exactly (the text of a number is
// its bits), so that a symbolic value goes through the text of a file unchanged.
#pragma once
#include <cstdint>
#include <cstring>
#include <locale>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
struct ExactPut : std::num_put<char>
{
  iter_type do_put(iter_type o, std::ios_base &, char_type, double v) const override
  {
    uint64_t u;
    std::memcpy(&u, &v, 8);
    *o++ = 'x';
    for(int i = 60; i >= 0; i -= 4) *o++ = "0123456789abcdef"[(u >> i) & 15];
    return o;
  }
};
struct ExactGet : std::num_get<char>
{
  iter_type do_get(iter_type i, iter_type e, std::ios_base &, std::ios_base::iostate & err, double & v) const override
  {
    uint64_t u = 0;
    int n = 0;
    bool ok = i != e && *i == 'x';
    if(ok) ++i;
    for(; ok && i != e; ++i, ++n)
    {
      char c = *i;
      int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1;
      if(d < 0) break;
      u = u << 4 | uint64_t(d);
    }
    if(i == e) err |= std::ios_base::eofbit;
    if(!ok || n != 16)
    {
      err |= std::ios_base::failbit;
      return i;
    }
    std::memcpy(&v, &u, 8);
    return i;
  }
};
// the streams made while it exists write and read numbers exactly
struct ExactNumbers
{
  std::locale previous;
  ExactNumbers() : previous(std::locale::global(std::locale(std::locale(std::locale::classic(), new ExactPut), new ExactGet))) {}
  ~ExactNumbers() { std::locale::global(previous); }
};
struct MemFile
{
  int fd;
  MemFile() : fd(memfd_create("sx", 0)) {}
  ~MemFile() { close(fd); }
  std::string dir() const { return "/proc/self/fd"; }
  std::string file() const { return std::to_string(fd); }
  std::string path() const { return dir() + "/" + file(); }
};

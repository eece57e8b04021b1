#pragma once
// A file to load documents from: in memory in the symbolic run, in a scratch directory natively. Define VS_UTILS as the list of headers before.
#include <fstream>
#include <iostream>
#include <iterator>
#include <limits>
#include <sstream>
#ifndef VS_NATIVE
struct VsFile { int kind = 0; std::string path, data; int opened = 0, closed = 0; }; // 0: file, 1: missing, 2: directory, 3: reading fails
static VsFile F;
namespace std {
struct vs_ifstream { size_t pos = 0; bool open_ = false, bad = false, eof_ = false; size_t last = 0;
  vs_ifstream() {} explicit vs_ifstream(const char *p, ios_base::openmode = ios_base::in) { open(p); } explicit vs_ifstream(const string &p, ios_base::openmode = ios_base::in) { open(p.c_str()); } vs_ifstream(const vs_ifstream &) = delete; ~vs_ifstream() { close(); }
  void open(const char *p, ios_base::openmode = ios_base::in) { if (F.kind == 1 || F.path != p) bad = true; else open_ = true, ++F.opened; } void open(const string &p, ios_base::openmode m = ios_base::in) { open(p.c_str(), m); } void close() { if (open_) ++F.closed; open_ = false; }
  bool is_open() const { return open_; } bool good() const { return !bad && !eof_; } bool fail() const { return bad; } bool eof() const { return eof_; } explicit operator bool() const { return !bad; } bool operator!() const { return bad; } void clear() { bad = eof_ = false; }
  streamoff tellg() { return bad || F.kind == 2 ? F.kind == 2 && !bad ? 0x7fffffffffffffffLL : -1 : (streamoff)pos; }
  vs_ifstream &seekg(streamoff o, ios_base::seekdir d = ios_base::beg) { eof_ = false; if (F.kind == 2 || !open_) { if (!open_) bad = true; return *this; } streamoff n = (d == ios_base::end ? (streamoff)F.data.size() : d == ios_base::cur ? (streamoff)pos : 0) + o; if (n < 0) bad = true; else pos = (size_t)n; return *this; }
  int peek() { return F.kind >= 2 || !open_ || bad || pos >= F.data.size() ? -1 : (unsigned char)F.data[pos]; } int get() { int c = peek(); if (c < 0) eof_ = bad = true; else ++pos; last = c >= 0; return c; } vs_ifstream &get(char &c) { int x = get(); if (x >= 0) c = (char)x; return *this; }
  vs_ifstream &read(char *b, streamsize n) { last = 0; while ((streamsize)last < n) { int c = peek(); if (c < 0) { eof_ = bad = true; break; } b[last++] = (char)c; ++pos; } return *this; } vs_ifstream *rdbuf() { return this; } streamsize gcount() const { return (streamsize)last; } };
inline vs_ifstream &getline(vs_ifstream &f, string &s, char d = '\n') { s.clear(); size_t n = 0; for (;; ++n) { int c = f.peek(); if (c < 0) { f.eof_ = true; if (!n) f.bad = true; return f; } ++f.pos; if ((char)c == d) return f; s += (char)c; } }
struct vs_oss { string s; string str() const { return s; } vs_oss &operator<<(vs_ifstream *f) { while (f->peek() >= 0) s += (char)f->get(); return *this; } vs_oss &operator<<(const string &x) { s += x; return *this; } vs_oss &operator<<(const char *x) { s += x; return *this; } vs_oss &operator<<(char x) { s += x; return *this; } };
template <class C, class T = char_traits<C>> struct vs_isbi { typedef input_iterator_tag iterator_category; typedef C value_type; typedef streamoff difference_type; typedef C *pointer; typedef C reference; vs_ifstream *f = nullptr; vs_isbi() {} vs_isbi(vs_ifstream &x) : f(&x) {} C operator*() const { return (C)f->peek(); } vs_isbi &operator++() { ++f->pos; return *this; } vs_isbi operator++(int) { vs_isbi r = *this; ++f->pos; return r; } bool end() const { return !f || f->peek() < 0; } bool operator==(const vs_isbi &o) const { return end() == o.end(); } bool operator!=(const vs_isbi &o) const { return end() != o.end(); } };
struct vs_err { template <class T> vs_err &operator<<(const T &) { return *this; } vs_err &operator<<(ostream &(*)(ostream &)) { return *this; } }; static vs_err vs_cerr;
}
#define ifstream vs_ifstream
#define istreambuf_iterator vs_isbi
#define cerr vs_cerr
#define ostringstream vs_oss
#define stringstream vs_oss
static std::string place(int kind, const std::string &data) { F = VsFile(); F.kind = kind; F.data = data; F.path = "/x/doc.json"; return F.path; }
static void unplace() { vs_assert(F.opened == F.closed, "file closed"); }
#else
#include <sys/stat.h>
#include <unistd.h>
static std::string dir;
static std::string place(int kind, const std::string &data) { char t[] = "/tmp/vs28.XXXXXX"; dir = mkdtemp(t); std::string p = dir + "/doc.json"; if (kind == 2) mkdir(p.c_str(), 0700); else if (kind != 1) { std::ofstream o(p, std::ios::binary); o << data; } if (kind == 3) { unlink(p.c_str()); (void)!symlink(p.c_str(), p.c_str()); } std::cerr.setstate(std::ios::failbit); return p; }
static void unplace() { std::string p = dir + "/doc.json"; unlink(p.c_str()); rmdir(p.c_str()); rmdir(dir.c_str()); }
#endif

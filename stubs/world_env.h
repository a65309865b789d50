// stand-ins for the environment of rviz_world_loader.cpp: environment variables, file status and string/file streams (libstdc++'s are external to the engine)
#pragma once
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
#include <Eigen/Core>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include "ros_stub.h"
#include "sym.h"
namespace stub {
inline std::map<std::string, std::string>& env() { static std::map<std::string, std::string> m; return m; }
inline std::function<int(const std::string&, unsigned&)>& onStat() { static std::function<int(const std::string&, unsigned&)> f; return f; }
inline int modeOf(const std::string& p, unsigned& m) { m = 0; return onStat() ? onStat()(p, m) : -1; }
}
inline char* stub_getenv(const char* n) { auto i = stub::env().find(n); return i == stub::env().end() ? nullptr : &i->second[0]; }
inline int stub_stat(const char* p, struct stat* s) { unsigned m; if (stub::modeOf(p, m)) return -1; s->st_mode = m; return 0; }
namespace std {
using ::stub_getenv; using ::stub_stat;
struct stub_stringstream {
  std::string b; size_t r = 0, w = 0; bool app = false, good_ = true;
  stub_stringstream() {} explicit stub_stringstream(const std::string& s, std::ios_base::openmode m = std::ios_base::in | std::ios_base::out) : b(s), w((m & (std::ios_base::app | std::ios_base::ate)) ? s.size() : 0), app((m & std::ios_base::app) != 0) {}
  stub_stringstream& put(const std::string& s) { if (!good_) return *this; if (app) w = b.size(); b = b.substr(0, w) + s + (w + s.size() < b.size() ? b.substr(w + s.size()) : std::string()); w += s.size(); return *this; }
  stub_stringstream& operator<<(const std::string& s) { return put(s); } stub_stringstream& operator<<(const char* s) { if (!s) { good_ = false; return *this; } return put(s); } stub_stringstream& operator<<(char c) { return put(std::string(1, c)); }
  std::string str() const { return b; } void str(const std::string& s) { b = s; r = w = 0; } void clear() { good_ = true; } bool good() const { return good_; } bool eof() const { return r >= b.size(); } explicit operator bool() const { return good_; } bool operator!() const { return !good_; }
};
inline stub_stringstream& getline(stub_stringstream& i, std::string& s, char d = '\n') { if (!i.good_) return i; s.clear(); if (i.r >= i.b.size()) { i.good_ = false; return i; } while (i.r < i.b.size()) { char c = i.b[i.r++]; if (c == d) return i; s.push_back(c); } return i; }
struct stub_ifstream { std::string stub_path; bool ok = false; stub_ifstream() {} template <class P> explicit stub_ifstream(const P& p, std::ios_base::openmode = std::ios_base::in) { open(p); } template <class P> void open(const P& p, std::ios_base::openmode = std::ios_base::in) { stub_path = p; unsigned m; ok = stub::modeOf(stub_path, m) == 0; } bool is_open() const { return ok; } bool good() const { return ok; } bool fail() const { return !ok; } void close() {} explicit operator bool() const { return ok; } bool operator!() const { return !ok; } };
}
#define stringstream stub_stringstream
#define istringstream stub_stringstream
#define ostringstream stub_stringstream
#define ifstream stub_ifstream
#define getenv(x) stub_getenv(x)
#define secure_getenv(x) stub_getenv(x)
#define stat(p, b) stub_stat(p, b)

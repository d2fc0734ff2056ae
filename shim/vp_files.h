// The files of the model: all in memory.
#pragma once
#include <cstdio>
#include <cstring>
#include <memory>
#include <string>
#include <vector>

namespace vp {
struct file {
  std::string name;
  std::vector<char> bytes;
  long time{0};  // of its last change
};
inline std::vector<std::unique_ptr<file>>& files() {
  static std::vector<std::unique_ptr<file>> f;
  return f;
}
inline file* find_file(char const* name) {
  for (auto& f : files())
    if (f->name == name) return f.get();
  return nullptr;
}
inline file& create_file(char const* name) {
  if (auto* f = find_file(name)) return *f;
  files().push_back(std::make_unique<file>());
  files().back()->name = name;
  return *files().back();
}
inline file& create_file(char const* name, std::string const& text) {
  auto& f = create_file(name);
  f.bytes.assign(text.begin(), text.end());
  return f;
}
// a directory exists when it has files
inline bool has_directory(std::string const& name) {
  for (auto& f : files())
    if (f->name.size() > name.size() + 1 && f->name.compare(0, name.size(), name) == 0 && f->name[name.size()] == '/') return true;
  return false;
}
struct open_file {
  file* f;
  std::size_t at;
};
}  // namespace vp
inline ::FILE* vp_fopen(char const* name, char const*) {
  auto* const f = vp::find_file(name);
  return f == nullptr ? nullptr : reinterpret_cast<::FILE*>(new vp::open_file{f, 0});
}
inline std::size_t vp_fread(void* to, std::size_t const size, std::size_t const n, ::FILE* f) {
  auto& o = *reinterpret_cast<vp::open_file*>(f);
  std::size_t const left = (o.f->bytes.size() - o.at) / size, k = n < left ? n : left;
  if (k != 0) std::memcpy(to, o.f->bytes.data() + o.at, k * size);
  o.at += k * size;
  return k;
}
inline int vp_fclose(::FILE* f) {
  delete reinterpret_cast<vp::open_file*>(f);
  return 0;
}
#define fopen vp_fopen
#define fread vp_fread
#define fclose vp_fclose

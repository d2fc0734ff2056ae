// Native implementation of the harness interface: runs one harness entry on
// recorded inputs.   prog ENTRY INPUTFILE
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <string>
#include <unistd.h>
#include <vector>

static std::vector<std::uint64_t> in;
static std::size_t pos = 0;

extern "C" {
std::uint64_t sym_make(char const*, unsigned bits) {
  std::uint64_t v = pos < in.size() ? in[pos] : 0;
  ++pos;
  return bits >= 64 ? v : v & ((1ULL << bits) - 1);
}
static void out(int code) {
  fflush(stdout);
  _exit(code);
}
void sym_assume(bool c) {
  if (!c) {
    printf("ASSUME\n");
    out(77);
  }
}
void sym_check(bool c, char const* msg) {
  if (!c) {
    printf("ASSERT %s\n", msg);
    out(42);
  }
}
void sym_reach(char const*) {}
void sym_observe(std::uint64_t v) { printf("O %llu\n", static_cast<unsigned long long>(v)); }
std::uint64_t sym_fork(std::uint64_t v) { return v; }
}

int main(int argc, char** argv) {
  if (argc < 3) return 2;
  if (FILE* f = fopen(argv[2], "r")) {
    unsigned long long x;
    while (fscanf(f, "%llu", &x) == 1) in.push_back(x);
    fclose(f);
  }
  void* h = dlopen(nullptr, RTLD_NOW);
  auto fn = reinterpret_cast<void (*)()>(dlsym(h, argv[1]));
  if (!fn) {
    fprintf(stderr, "no entry %s\n", argv[1]);
    return 2;
  }
  alarm(20);
  try {
    fn();
  } catch (std::exception const& e) {
    printf("EXCEPTION %s\n", e.what());
    out(43);
  } catch (...) {
    printf("EXCEPTION ?\n");
    out(43);
  }
  printf("OK\n");
  out(0);
}

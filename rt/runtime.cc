// Bitcode implementations of the library functions that live in libstdc++.so /
// libc.so and are needed by the code under analysis.  Part of the trusted base.
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <future>
#include <new>
#include <optional>
#include <stdexcept>
#include <string>
#include <system_error>
#include <typeinfo>
#include <variant>
#include <map>
#include <unordered_map>

// ------------------------------------------------------------ exceptions
namespace std {
exception::~exception() noexcept {}
char const* exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
char const* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
char const* bad_array_new_length::what() const noexcept { return "bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
char const* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
char const* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
char const* bad_function_call::what() const noexcept { return "bad_function_call"; }

static char const emptyWhat[] = "";
__cow_string::__cow_string() : _M_p(emptyWhat) {}
__cow_string::__cow_string(const std::string&) : _M_p(emptyWhat) {}
__cow_string::__cow_string(char const* s, size_t) : _M_p(s) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(o._M_p) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept {
  _M_p = o._M_p;
  return *this;
}
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) {}
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept {
  _M_p = o._M_p;
  return *this;
}

logic_error::logic_error(const string& s) : exception(), _M_msg(s) {}
logic_error::logic_error(const char* s) : exception(), _M_msg(s, 0) {}
logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(logic_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
char const* logic_error::what() const noexcept { return _M_msg._M_p; }
domain_error::domain_error(const string& s) : logic_error(s) {}
domain_error::domain_error(const char* s) : logic_error(s) {}
domain_error::~domain_error() noexcept {}
invalid_argument::invalid_argument(const string& s) : logic_error(s) {}
invalid_argument::invalid_argument(const char* s) : logic_error(s) {}
invalid_argument::~invalid_argument() noexcept {}
length_error::length_error(const string& s) : logic_error(s) {}
length_error::length_error(const char* s) : logic_error(s) {}
length_error::~length_error() noexcept {}
out_of_range::out_of_range(const string& s) : logic_error(s) {}
out_of_range::out_of_range(const char* s) : logic_error(s) {}
out_of_range::~out_of_range() noexcept {}
runtime_error::runtime_error(const string& s) : exception(), _M_msg(s) {}
runtime_error::runtime_error(const char* s) : exception(), _M_msg(s, 0) {}
runtime_error::runtime_error(runtime_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(runtime_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
char const* runtime_error::what() const noexcept { return _M_msg._M_p; }
range_error::range_error(const string& s) : runtime_error(s) {}
range_error::range_error(const char* s) : runtime_error(s) {}
range_error::~range_error() noexcept {}
overflow_error::overflow_error(const string& s) : runtime_error(s) {}
overflow_error::overflow_error(const char* s) : runtime_error(s) {}
overflow_error::~overflow_error() noexcept {}
underflow_error::underflow_error(const string& s) : runtime_error(s) {}
underflow_error::underflow_error(const char* s) : runtime_error(s) {}
underflow_error::~underflow_error() noexcept {}
system_error::~system_error() noexcept {}

void __throw_logic_error(char const* s) { throw logic_error(s); }
void __throw_domain_error(char const* s) { throw domain_error(s); }
void __throw_invalid_argument(char const* s) { throw invalid_argument(s); }
void __throw_length_error(char const* s) { throw length_error(s); }
void __throw_out_of_range(char const* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(char const* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(char const* s) { throw runtime_error(s); }
void __throw_range_error(char const* s) { throw range_error(s); }
void __throw_overflow_error(char const* s) { throw overflow_error(s); }
void __throw_underflow_error(char const* s) { throw underflow_error(s); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_bad_function_call() { throw bad_function_call(); }

// ------------------------------------------------------------ red-black tree
static _Rb_tree_node_base* incr(_Rb_tree_node_base* x) {
  if (x->_M_right != nullptr) {
    x = x->_M_right;
    while (x->_M_left != nullptr) x = x->_M_left;
  } else {
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) {
      x = y;
      y = y->_M_parent;
    }
    if (x->_M_right != y) x = y;
  }
  return x;
}
static _Rb_tree_node_base* decr(_Rb_tree_node_base* x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) {
    x = x->_M_right;
  } else if (x->_M_left != nullptr) {
    _Rb_tree_node_base* y = x->_M_left;
    while (y->_M_right != nullptr) y = y->_M_right;
    x = y;
  } else {
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) {
      x = y;
      y = y->_M_parent;
    }
    x = y;
  }
  return x;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept { return incr(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept {
  return incr(const_cast<_Rb_tree_node_base*>(x));
}
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept { return decr(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept {
  return decr(const_cast<_Rb_tree_node_base*>(x));
}
static void rotL(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root) {
  _Rb_tree_node_base* const y = x->_M_right;
  x->_M_right = y->_M_left;
  if (y->_M_left != nullptr) y->_M_left->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root)
    root = y;
  else if (x == x->_M_parent->_M_left)
    x->_M_parent->_M_left = y;
  else
    x->_M_parent->_M_right = y;
  y->_M_left = x;
  x->_M_parent = y;
}
static void rotR(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root) {
  _Rb_tree_node_base* const y = x->_M_left;
  x->_M_left = y->_M_right;
  if (y->_M_right != nullptr) y->_M_right->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root)
    root = y;
  else if (x == x->_M_parent->_M_right)
    x->_M_parent->_M_right = y;
  else
    x->_M_parent->_M_left = y;
  y->_M_right = x;
  x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p,
                                   _Rb_tree_node_base& header) noexcept {
  _Rb_tree_node_base*& root = header._M_parent;
  x->_M_parent = p;
  x->_M_left = nullptr;
  x->_M_right = nullptr;
  x->_M_color = _S_red;
  if (left) {
    p->_M_left = x;
    if (p == &header) {
      header._M_parent = x;
      header._M_right = x;
    } else if (p == header._M_left)
      header._M_left = x;
  } else {
    p->_M_right = x;
    if (p == header._M_right) header._M_right = x;
  }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    _Rb_tree_node_base* const xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) {
      _Rb_tree_node_base* const y = xpp->_M_right;
      if (y && y->_M_color == _S_red) {
        x->_M_parent->_M_color = _S_black;
        y->_M_color = _S_black;
        xpp->_M_color = _S_red;
        x = xpp;
      } else {
        if (x == x->_M_parent->_M_right) {
          x = x->_M_parent;
          rotL(x, root);
        }
        x->_M_parent->_M_color = _S_black;
        xpp->_M_color = _S_red;
        rotR(xpp, root);
      }
    } else {
      _Rb_tree_node_base* const y = xpp->_M_left;
      if (y && y->_M_color == _S_red) {
        x->_M_parent->_M_color = _S_black;
        y->_M_color = _S_black;
        xpp->_M_color = _S_red;
        x = xpp;
      } else {
        if (x == x->_M_parent->_M_left) {
          x = x->_M_parent;
          rotR(x, root);
        }
        x->_M_parent->_M_color = _S_black;
        xpp->_M_color = _S_red;
        rotL(xpp, root);
      }
    }
  }
  root->_M_color = _S_black;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z,
                                                 _Rb_tree_node_base& header) noexcept {
  _Rb_tree_node_base*& root = header._M_parent;
  _Rb_tree_node_base*& leftmost = header._M_left;
  _Rb_tree_node_base*& rightmost = header._M_right;
  _Rb_tree_node_base* y = z;
  _Rb_tree_node_base* x = nullptr;
  _Rb_tree_node_base* xp = nullptr;
  if (y->_M_left == nullptr)
    x = y->_M_right;
  else if (y->_M_right == nullptr)
    x = y->_M_left;
  else {
    y = y->_M_right;
    while (y->_M_left != nullptr) y = y->_M_left;
    x = y->_M_right;
  }
  if (y != z) {
    z->_M_left->_M_parent = y;
    y->_M_left = z->_M_left;
    if (y != z->_M_right) {
      xp = y->_M_parent;
      if (x) x->_M_parent = y->_M_parent;
      y->_M_parent->_M_left = x;
      y->_M_right = z->_M_right;
      z->_M_right->_M_parent = y;
    } else
      xp = y;
    if (root == z)
      root = y;
    else if (z->_M_parent->_M_left == z)
      z->_M_parent->_M_left = y;
    else
      z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent;
    auto c = y->_M_color;
    y->_M_color = z->_M_color;
    z->_M_color = c;
    y = z;
  } else {
    xp = y->_M_parent;
    if (x) x->_M_parent = y->_M_parent;
    if (root == z)
      root = x;
    else if (z->_M_parent->_M_left == z)
      z->_M_parent->_M_left = x;
    else
      z->_M_parent->_M_right = x;
    if (leftmost == z) {
      if (z->_M_right == nullptr)
        leftmost = z->_M_parent;
      else {
        auto* m = x;
        while (m->_M_left != nullptr) m = m->_M_left;
        leftmost = m;
      }
    }
    if (rightmost == z) {
      if (z->_M_left == nullptr)
        rightmost = z->_M_parent;
      else {
        auto* m = x;
        while (m->_M_right != nullptr) m = m->_M_right;
        rightmost = m;
      }
    }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (x == nullptr || x->_M_color == _S_black))
      if (x == xp->_M_left) {
        _Rb_tree_node_base* w = xp->_M_right;
        if (w->_M_color == _S_red) {
          w->_M_color = _S_black;
          xp->_M_color = _S_red;
          rotL(xp, root);
          w = xp->_M_right;
        }
        if ((w->_M_left == nullptr || w->_M_left->_M_color == _S_black) &&
            (w->_M_right == nullptr || w->_M_right->_M_color == _S_black)) {
          w->_M_color = _S_red;
          x = xp;
          xp = xp->_M_parent;
        } else {
          if (w->_M_right == nullptr || w->_M_right->_M_color == _S_black) {
            w->_M_left->_M_color = _S_black;
            w->_M_color = _S_red;
            rotR(w, root);
            w = xp->_M_right;
          }
          w->_M_color = xp->_M_color;
          xp->_M_color = _S_black;
          if (w->_M_right) w->_M_right->_M_color = _S_black;
          rotL(xp, root);
          break;
        }
      } else {
        _Rb_tree_node_base* w = xp->_M_left;
        if (w->_M_color == _S_red) {
          w->_M_color = _S_black;
          xp->_M_color = _S_red;
          rotR(xp, root);
          w = xp->_M_left;
        }
        if ((w->_M_right == nullptr || w->_M_right->_M_color == _S_black) &&
            (w->_M_left == nullptr || w->_M_left->_M_color == _S_black)) {
          w->_M_color = _S_red;
          x = xp;
          xp = xp->_M_parent;
        } else {
          if (w->_M_left == nullptr || w->_M_left->_M_color == _S_black) {
            w->_M_right->_M_color = _S_black;
            w->_M_color = _S_red;
            rotL(w, root);
            w = xp->_M_left;
          }
          w->_M_color = xp->_M_color;
          xp->_M_color = _S_black;
          if (w->_M_left) w->_M_left->_M_color = _S_black;
          rotR(xp, root);
          break;
        }
      }
    if (x) x->_M_color = _S_black;
  }
  return y;
}

// ------------------------------------------------------------ hashtable policy
namespace __detail {
static unsigned long const primes[] = {2,    3,    5,    7,    11,   13,    17,    19,    23,   29,  37,
                                       53,   97,   193,  389,  769,  1543,  3079,  6151,  12289, 24593,
                                       49157, 98317, 196613};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  for (auto p : primes)
    if (p >= n) {
      _M_next_resize = static_cast<size_t>(static_cast<double>(p) * static_cast<double>(_M_max_load_factor));
      return p;
    }
  __builtin_trap();
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t n_bkt, size_t n_elt, size_t n_ins) const {
  if (n_elt + n_ins > _M_next_resize) {
    size_t min = max<size_t>(n_elt + n_ins, _M_next_resize ? 0 : 11);
    if (min >= n_bkt) return {true, _M_next_bkt(max<size_t>(min + 1, n_bkt * 2))};
    _M_next_resize = n_bkt;
    return {false, 0};
  }
  return {false, 0};
}
}  // namespace __detail
size_t _Hash_bytes(const void* p, size_t n, size_t seed) {
  // any deterministic function of the bytes; FNV-1a
  auto const* b = static_cast<unsigned char const*>(p);
  size_t h = seed ^ 1469598103934665603ULL;
  for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 1099511628211ULL;
  return h;
}
}  // namespace std

// ------------------------------------------------------------ filesystem::path
// Paths are their text: the lazily split components are not modelled.
extern "C" {
void vp_path_list(void** l) __asm__("_ZNSt10filesystem7__cxx114path5_ListC1Ev");
void vp_path_list(void** l) { *l = nullptr; }
void vp_path_list_copy(void** l, void* const*) __asm__("_ZNSt10filesystem7__cxx114path5_ListC1ERKS2_");
void vp_path_list_copy(void** l, void* const*) { *l = nullptr; }
void* vp_path_list_assign(void** l, void* const*) __asm__("_ZNSt10filesystem7__cxx114path5_ListaSERKS2_");
void* vp_path_list_assign(void** l, void* const*) { return l; }
void vp_path_list_delete(void*, void*) __asm__("_ZNKSt10filesystem7__cxx114path5_List13_Impl_deleterclEPNS2_5_ImplE");
void vp_path_list_delete(void*, void*) {}
void vp_path_split(void*) __asm__("_ZNSt10filesystem7__cxx114path14_M_split_cmptsEv");
void vp_path_split(void*) {}
void vp_path_clear(void*) __asm__("_ZNSt10filesystem7__cxx114path5_List5clearEv");
void vp_path_clear(void*) {}
}

// ------------------------------------------------------------ libc
extern "C" {
std::size_t strlen(char const* s) {
  std::size_t n = 0;
  while (s[n] != 0) ++n;
  return n;
}
int strcmp(char const* a, char const* b) {
  for (;; ++a, ++b) {
    auto x = static_cast<unsigned char>(*a), y = static_cast<unsigned char>(*b);
    if (x != y) return x < y ? -1 : 1;
    if (x == 0) return 0;
  }
}
int strncmp(char const* a, char const* b, std::size_t n) {
  for (; n > 0; ++a, ++b, --n) {
    auto x = static_cast<unsigned char>(*a), y = static_cast<unsigned char>(*b);
    if (x != y) return x < y ? -1 : 1;
    if (x == 0) return 0;
  }
  return 0;
}
void* memchr(void const* p, int c, std::size_t n) {
  auto const* b = static_cast<unsigned char const*>(p);
  for (; n > 0; ++b, --n)
    if (*b == static_cast<unsigned char>(c)) return const_cast<unsigned char*>(b);
  return nullptr;
}
char* strchr(char const* s, int c) {
  for (;; ++s) {
    if (*s == static_cast<char>(c)) return const_cast<char*>(s);
    if (*s == 0) return nullptr;
  }
}
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
// base 10 only
static int vp_errno;
int* __errno_location() noexcept { return &vp_errno; }
static unsigned long vp_strto(char const* s, char** end, bool& neg, unsigned long const max, bool& over) {
  char const* b = s;
  while (isspace(*s)) ++s;
  neg = *s == '-';
  if (*s == '-' || *s == '+') ++s;
  char const* d = s;
  unsigned long r = 0;
  over = false;
  for (; *s >= '0' && *s <= '9'; ++s) {
    unsigned long k = static_cast<unsigned long>(*s - '0');
    // (19 digits always fit)
    if (s - d >= 18 && r > (max - k) / 10) over = true;
    r = r * 10UL + k;
  }
  if (end) *end = const_cast<char*>(s == d ? b : s);
  if (over) vp_errno = 34;
  return r;
}
long strtol(char const* s, char** end, int) noexcept {
  bool neg, over;
  auto const r = vp_strto(s, end, neg, 0x7fffffffffffffffUL, over);
  if (over) return neg ? static_cast<long>(0x8000000000000000UL) : 0x7fffffffffffffffL;
  return static_cast<long>(neg ? 0UL - r : r);
}
long long strtoll(char const* s, char** end, int b) noexcept { return strtol(s, end, b); }
unsigned long strtoul(char const* s, char** end, int) noexcept {
  bool neg, over;
  auto const r = vp_strto(s, end, neg, ~0UL, over);
  return over ? ~0UL : neg ? 0UL - r : r;
}
unsigned long long strtoull(char const* s, char** end, int b) noexcept { return strtoul(s, end, b); }
char* strstr(char const* h, char const* n) {
  for (;; ++h) {
    std::size_t i = 0;
    while (n[i] != 0 && h[i] == n[i]) ++i;
    if (n[i] == 0) return const_cast<char*>(h);
    if (*h == 0) return nullptr;
  }
}
}

// ------------------------------------------------------------ error categories
namespace std {
inline namespace _V2 {
error_category::~error_category() noexcept {}
error_condition error_category::default_error_condition(int v) const noexcept { return error_condition(v, *this); }
bool error_category::equivalent(int v, error_condition const& c) const noexcept { return default_error_condition(v) == c; }
bool error_category::equivalent(error_code const& c, int v) const noexcept { return *this == c.category() && c.value() == v; }
__cow_string error_category::_M_message(int) const { return __cow_string(); }
namespace {
struct rt_category final : error_category {
  char const* name_;
  explicit rt_category(char const* n) : name_{n} {}
  char const* name() const noexcept override { return name_; }
  string message(int) const override { return "error"; }
};
rt_category const rt_generic{"generic"}, rt_system{"system"};
}  // namespace
error_category const& generic_category() noexcept { return rt_generic; }
error_category const& system_category() noexcept { return rt_system; }
}  // namespace _V2
}  // namespace std

// ------------------------------------------------------------ list nodes
#include <list>
namespace std::__detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept {
  _M_next = p;
  _M_prev = p->_M_prev;
  p->_M_prev->_M_next = this;
  p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept {
  _M_next->_M_prev = _M_prev;
  _M_prev->_M_next = _M_next;
}
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
  if (this == last) return;
  last->_M_prev->_M_next = this;
  first->_M_prev->_M_next = last;
  _M_prev->_M_next = first;
  auto* const t = _M_prev;
  _M_prev = last->_M_prev;
  last->_M_prev = first->_M_prev;
  first->_M_prev = t;
}
}  // namespace std::__detail

// ------------------------------------------------------------ decimal numbers
// Exact for plain decimals with up to 15 digits (numerator and power of ten are
// exact doubles, so that the quotient is correctly rounded); others unsupported.
#include <charconv>
extern "C" void vp_unsupported_number();
namespace std {
template <typename T>
static from_chars_result vp_from_chars(char const* first, char const* last, T& value) noexcept {
  char const* p = first;
  bool neg = false;
  if (p != last && *p == '-') {
    neg = true;
    ++p;
  }
  if (p != last && (*p == 'i' || *p == 'I' || *p == 'n' || *p == 'N')) vp_unsupported_number();
  long long v = 0;
  unsigned digits = 0;
  T scale = 1;
  for (; p != last && *p >= '0' && *p <= '9'; ++p, ++digits) v = v * 10 + (*p - '0');
  if (p != last && *p == '.' && (digits != 0 || (p + 1 != last && p[1] >= '0' && p[1] <= '9'))) {
    ++p;
    for (; p != last && *p >= '0' && *p <= '9'; ++p, ++digits) {
      v = v * 10 + (*p - '0');
      scale *= 10;
    }
  }
  if (digits == 0) return {first, errc::invalid_argument};
  if (digits > (sizeof(T) == 8 ? 15U : 7U) || (p != last && (*p == 'e' || *p == 'E'))) vp_unsupported_number();
  T const r = static_cast<T>(v) / scale;
  value = neg ? -r : r;
  return {p, errc{}};
}
from_chars_result from_chars(char const* f, char const* l, double& v, chars_format) noexcept { return vp_from_chars(f, l, v); }
from_chars_result from_chars(char const* f, char const* l, float& v, chars_format) noexcept { return vp_from_chars(f, l, v); }
}  // namespace std

#!/usr/bin/env python3
"""Derive an overlay of libstdc++'s <bits/stl_vector.h> that clang accepts for
std::vector members of an incomplete element type (g++ accepts the original):
the constexpr destructors apply only to complete element types.  No run-time
behaviour changes."""
import sys
src, dst = sys.argv[1:3]
s = open(src).read()
a = """      _GLIBCXX20_CONSTEXPR
      ~_Vector_base() _GLIBCXX_NOEXCEPT
      {
	_M_deallocate(_M_impl._M_start,
		      _M_impl._M_end_of_storage - _M_impl._M_start);
      }
"""
b = """      _GLIBCXX20_CONSTEXPR
      ~vector() _GLIBCXX_NOEXCEPT
      {
	std::_Destroy(this->_M_impl._M_start, this->_M_impl._M_finish,
		      _M_get_Tp_allocator());
	_GLIBCXX_ASAN_ANNOTATE_BEFORE_DEALLOC;
      }
"""
assert s.count(a) == 1 and s.count(b) == 1
def dup(t, n):
    plain = t.replace("      _GLIBCXX20_CONSTEXPR\n", "", 1)
    con = t.replace("_GLIBCXX_NOEXCEPT", "_GLIBCXX_NOEXCEPT requires __vp_complete<_Tp>", 1)
    return con + plain
s = s.replace(a, dup(a, 0)).replace(b, dup(b, 1))
m = "  template<typename _Tp, typename _Alloc>\n    struct _Vector_base\n"
assert s.count(m) == 1
s = s.replace(m, "  template<typename _Tp>\n    concept __vp_complete = requires { sizeof(_Tp); };\n\n" + m)
# (concept placed after doc comment of _Vector_base)
open(dst, "w").write(s)

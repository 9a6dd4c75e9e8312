#ifndef _OSTREAM_INSERT_H
#define _OSTREAM_INSERT_H 1
#include <iosfwd>
#include <bits/cxxabi_forced.h>
#include <bits/exception_defines.h>
extern "C" int vp_format;
namespace std {
template <typename C, typename T> inline basic_ostream<C, T>& __ostream_insert(basic_ostream<C, T>& o, const C* s, streamsize n) { o.vp_text(s, n); return o; }
}
#endif

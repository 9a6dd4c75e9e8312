// Minimal stand-in for the iostream library when compiling for the symbolic
// executor: formatting and logging have empty bodies (they are not the subject
// of any property), unless the global vp_format is set, in which case strings,
// characters and integers are rendered in decimal into string streams.
#ifndef VP_FAKEIO_H
#define VP_FAKEIO_H
#include <iosfwd>
#include <string>
#include <stdexcept>
#include <exception>
extern "C" { extern int vp_format; unsigned long long vp_file_size(const char*); size_t vp_file_get(const char*, size_t, void*, size_t); }
namespace std {
class ios_base {
public:
    typedef int fmtflags; typedef int iostate; typedef int openmode; typedef int seekdir;
    static const fmtflags dec = 1, hex = 2, oct = 4, fixed = 8, scientific = 16, left = 32, right = 64, boolalpha = 128, showbase = 256, showpoint = 512, basefield = 7, floatfield = 24, adjustfield = 96, skipws = 1024, uppercase = 2048, showpos = 4096, internal = 8192, unitbuf = 16384;
    static const iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
    static const openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
    static const seekdir beg = 0, cur = 1, end = 2;
    class failure : public runtime_error { public: failure(const string& s) : runtime_error(s) {} };
    int vp_state, vp_flags; streamsize vp_prec, vp_w; char vp_fill;
    ios_base() : vp_state(0), vp_flags(1), vp_prec(6), vp_w(0), vp_fill(' ') {}
    fmtflags flags() const { return vp_flags; }
    fmtflags flags(fmtflags f) { int o = vp_flags; vp_flags = f; return o; }
    fmtflags setf(fmtflags f) { int o = vp_flags; vp_flags |= f; return o; }
    fmtflags setf(fmtflags f, fmtflags m) { int o = vp_flags; vp_flags = (vp_flags & ~m) | f; return o; }
    void unsetf(fmtflags f) { vp_flags &= ~f; }
    streamsize precision() const { return vp_prec; }
    streamsize precision(streamsize p) { streamsize o = vp_prec; vp_prec = p; return o; }
    streamsize width() const { return vp_w; }
    streamsize width(streamsize p) { streamsize o = vp_w; vp_w = p; return o; }
};
template <class C, class T> class basic_ios : public ios_base {
public:
    basic_ios() {} explicit basic_ios(basic_streambuf<C, T>*) {} basic_ios& copyfmt(const basic_ios&) { return *this; }
    bool good() const { return vp_state == 0; } bool eof() const { return vp_state & eofbit; } bool fail() const { return vp_state & (failbit | badbit); } bool bad() const { return vp_state & badbit; }
    explicit operator bool () const { return !fail(); } bool operator ! () const { return fail(); }
    iostate rdstate() const { return vp_state; } void clear(iostate s = 0) { vp_state = s; } void setstate(iostate s) { vp_state |= s; }
    void exceptions(iostate) {} C widen(char c) const { return C(c); } C fill() const { return C(this->vp_fill); } C fill(C c) { C o = C(this->vp_fill); this->vp_fill = char(c); return o; }
};
template <class C, class T> class basic_streambuf { public: typedef C char_type; typedef T traits_type; typedef int int_type; virtual ~basic_streambuf() {} };
template <class C, class T> class basic_ostream : virtual public basic_ios<C, T> {
public:
    typedef C char_type; typedef T traits_type;
    basic_string<C> vp_buf;
    basic_ostream() {} explicit basic_ostream(basic_streambuf<C, T>*) {}
    virtual ~basic_ostream() {}
    void vp_pad(size_t n) { if ((size_t)this->vp_w > n) vp_buf.append((size_t)this->vp_w - n, C(this->vp_fill)); this->vp_w = 0; } // right-adjusted
    void vp_text(const C* s, size_t n) { if (!vp_format) return; bool l = this->vp_flags & ios_base::left; streamsize w = this->vp_w; if (!l) vp_pad(n); vp_buf.append(s, n); if (l) { this->vp_w = w; vp_pad(n); } }
    void vp_num(unsigned long long v, bool neg) { if (vp_format) { C t[26]; int n = 26; unsigned b = (this->vp_flags & ios_base::basefield) == ios_base::hex ? 16 : (this->vp_flags & ios_base::basefield) == ios_base::oct ? 8 : 10; do { t[--n] = C("0123456789abcdef"[v % b]); v /= b; } while (v); if (neg) t[--n] = C('-'); vp_text(t + n, 26 - n); } }
    basic_ostream& operator << (unsigned long long v) { vp_num(v, false); return *this; }
    basic_ostream& operator << (long long v) { if (vp_format) vp_num(v < 0 ? 0ull - (unsigned long long)v : v, v < 0); return *this; }
    basic_ostream& operator << (unsigned long v) { return *this << (unsigned long long)v; }
    basic_ostream& operator << (long v) { return *this << (long long)v; }
    basic_ostream& operator << (unsigned v) { return *this << (unsigned long long)v; }
    basic_ostream& operator << (int v) { return *this << (long long)v; }
    basic_ostream& operator << (unsigned short v) { return *this << (unsigned long long)v; }
    basic_ostream& operator << (short v) { return *this << (long long)v; }
    basic_ostream& operator << (bool v) { return *this << (unsigned long long)v; }
    basic_ostream& operator << (double) { return *this; }
    basic_ostream& operator << (float) { return *this; }
    basic_ostream& operator << (long double) { return *this; }
    basic_ostream& operator << (const void*) { return *this; }
    basic_ostream& operator << (basic_streambuf<C, T>*) { return *this; }
    basic_ostream& operator << (basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
    basic_ostream& operator << (basic_ios<C, T>& (*f)(basic_ios<C, T>&)) { f(*this); return *this; }
    basic_ostream& operator << (ios_base& (*f)(ios_base&)) { f(*this); return *this; }
    basic_ostream& vp_chr(C c) { vp_text(&c, 1); return *this; }
    basic_ostream& put(C c) { if (vp_format) vp_buf += c; return *this; }
    basic_ostream& write(const C* s, streamsize n) { if (vp_format) vp_buf.append(s, n); return *this; }
    basic_ostream& flush() { return *this; }
};
template <class C, class T> inline basic_ostream<C, T>& operator << (basic_ostream<C, T>& o, C c) { return o.vp_chr(c); }
template <class T> inline basic_ostream<char, T>& operator << (basic_ostream<char, T>& o, unsigned char c) { return o.vp_chr(c); }
template <class T> inline basic_ostream<char, T>& operator << (basic_ostream<char, T>& o, signed char c) { return o.vp_chr(c); }
template <class C, class T> inline basic_ostream<C, T>& operator << (basic_ostream<C, T>& o, const C* s) { if (vp_format && s) { size_t n = 0; while (s[n]) ++n; o.vp_text(s, n); } return o; }
template <class T> inline basic_ostream<char, T>& operator << (basic_ostream<char, T>& o, const unsigned char* s) { return o; }
template <class C, class T> class basic_istream : virtual public basic_ios<C, T> {
public:
    typedef C char_type; typedef T traits_type;
    basic_string<C> vp_in; size_t vp_pos;
    basic_istream() : vp_pos(0) {} explicit basic_istream(basic_streambuf<C, T>*) : vp_pos(0) {}
    virtual ~basic_istream() {}
    template <class N> basic_istream& vp_get(N& n) {
        while (vp_pos < vp_in.size() && (vp_in[vp_pos] == ' ' || vp_in[vp_pos] == '\n' || vp_in[vp_pos] == '\t')) ++vp_pos;
        bool neg = false; if (vp_pos < vp_in.size() && vp_in[vp_pos] == '-') { neg = true; ++vp_pos; }
        size_t b = vp_pos; N v = 0; while (vp_pos < vp_in.size() && vp_in[vp_pos] >= '0' && vp_in[vp_pos] <= '9') v = v * 10 + N(vp_in[vp_pos++] - '0');
        if (vp_pos == vp_in.size()) this->vp_state |= ios_base::eofbit; if (b == vp_pos) { this->vp_state |= ios_base::failbit; n = 0; } else n = neg ? N(0 - v) : v; return *this; }
    basic_istream& operator >> (unsigned long long& v) { return vp_get(v); } basic_istream& operator >> (long long& v) { return vp_get(v); }
    basic_istream& operator >> (unsigned long& v) { return vp_get(v); } basic_istream& operator >> (long& v) { return vp_get(v); }
    basic_istream& operator >> (unsigned& v) { return vp_get(v); } basic_istream& operator >> (int& v) { return vp_get(v); }
    basic_istream& operator >> (unsigned short& v) { return vp_get(v); } basic_istream& operator >> (short& v) { return vp_get(v); }
    basic_istream& operator >> (double& v) { return vp_get(v); } basic_istream& operator >> (float& v) { return vp_get(v); } basic_istream& operator >> (long double& v) { return vp_get(v); }
    basic_istream& operator >> (bool& v) { int i = 0; vp_get(i); v = i; return *this; }
    int get() { if (vp_pos < vp_in.size()) return (unsigned char)vp_in[vp_pos++]; this->vp_state |= ios_base::eofbit | ios_base::failbit; return -1; }
    int peek() { return vp_pos < vp_in.size() ? (unsigned char)vp_in[vp_pos] : -1; }
    basic_istream& get(C& c) { int i = get(); if (i >= 0) c = C(i); return *this; }
    basic_istream& read(C* s, streamsize n) { while (n-- > 0) { int i = get(); if (i < 0) break; *s++ = C(i); } return *this; }
};
template <class C, class T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> { public: typedef C char_type; typedef T traits_type; basic_iostream() {} explicit basic_iostream(basic_streambuf<C, T>*) {} };
_GLIBCXX_BEGIN_NAMESPACE_CXX11
template <class C, class T, class A> class basic_stringbuf : public basic_streambuf<C, T> {};
template <class C, class T, class A> class basic_ostringstream : public basic_ostream<C, T> {
public: basic_ostringstream(int = 0) {} explicit basic_ostringstream(const basic_string<C, T, A>& s, int = 0) { this->vp_buf = s; }
    basic_string<C, T, A> str() const { return this->vp_buf; } void str(const basic_string<C, T, A>& s) { this->vp_buf = s; } };
template <class C, class T, class A> class basic_istringstream : public basic_istream<C, T> {
public: basic_istringstream(int = 0) {} explicit basic_istringstream(const basic_string<C, T, A>& s, int = 0) { this->vp_in = s; }
    basic_string<C, T, A> str() const { return this->vp_in; } void str(const basic_string<C, T, A>& s) { this->vp_in = s; this->vp_pos = 0; } };
template <class C, class T, class A> class basic_stringstream : public basic_iostream<C, T> {
public: basic_stringstream(int = 0) {} explicit basic_stringstream(const basic_string<C, T, A>& s, int = 0) { this->vp_in = s; this->vp_buf = s; }
    basic_string<C, T, A> str() const { return this->vp_buf; } void str(const basic_string<C, T, A>& s) { this->vp_buf = s; this->vp_in = s; } };
_GLIBCXX_END_NAMESPACE_CXX11
template <class C, class T> class basic_filebuf : public basic_streambuf<C, T> {};
template <class C, class T> class basic_ofstream : public basic_ostream<C, T> {
public: basic_ofstream() {} explicit basic_ofstream(const char*, int = 0) {} explicit basic_ofstream(const string&, int = 0) {} void open(const char*, int = 0) {} void open(const string&, int = 0) {} bool is_open() const { return true; } void close() {} };
template <class C, class T> class basic_ifstream : public basic_istream<C, T> { // reads files of the model file system
public: basic_ifstream() { this->vp_state = 4; } explicit basic_ifstream(const char* p, int = 0) { open(p); } explicit basic_ifstream(const string& p, int = 0) { open(p.c_str()); }
    void open(const char* p, int = 0) { unsigned long long n = vp_file_size(p); if (n == ~0ull) { this->vp_state = 4; return; } this->vp_state = 0; this->vp_pos = 0; this->vp_in.resize((size_t)n); if (n) vp_file_get(p, 0, &this->vp_in[0], (size_t)n); m_open = true; }
    bool m_open = false; bool is_open() const { return m_open; } void close() { m_open = false; } };
template <class C, class T> class basic_fstream : public basic_iostream<C, T> { public: basic_fstream() { this->vp_state = 4; } explicit basic_fstream(const char*, int = 0) { this->vp_state = 4; } bool is_open() const { return false; } void close() {} };
template <class C, class T> inline basic_ostream<C, T>& endl(basic_ostream<C, T>& o) { if (vp_format) o.vp_buf += C('\n'); return o; }
template <class C, class T> inline basic_ostream<C, T>& ends(basic_ostream<C, T>& o) { return o; }
template <class C, class T> inline basic_ostream<C, T>& flush(basic_ostream<C, T>& o) { return o; }
inline ios_base& dec(ios_base& b) { b.setf(ios_base::dec, ios_base::basefield); return b; } inline ios_base& hex(ios_base& b) { b.setf(ios_base::hex, ios_base::basefield); return b; } inline ios_base& oct(ios_base& b) { b.setf(ios_base::oct, ios_base::basefield); return b; } inline ios_base& fixed(ios_base& b) { return b; } inline ios_base& scientific(ios_base& b) { return b; }
inline ios_base& left(ios_base& b) { b.setf(ios_base::left, ios_base::adjustfield); return b; } inline ios_base& right(ios_base& b) { b.setf(ios_base::right, ios_base::adjustfield); return b; } inline ios_base& internal(ios_base& b) { return b; } inline ios_base& boolalpha(ios_base& b) { return b; } inline ios_base& noboolalpha(ios_base& b) { return b; } inline ios_base& showpoint(ios_base& b) { return b; } inline ios_base& showbase(ios_base& b) { return b; } inline ios_base& showpos(ios_base& b) { return b; } inline ios_base& skipws(ios_base& b) { return b; } inline ios_base& noskipws(ios_base& b) { return b; }
struct vp_manip {}; struct vp_setw { int n; }; struct vp_setfill { char c; };
inline vp_setw setw(int n) { vp_setw w = { n }; return w; } inline vp_setfill setfill(char c) { vp_setfill f = { c }; return f; }
template <class C, class T> inline basic_ostream<C, T>& operator << (basic_ostream<C, T>& o, vp_setw w) { o.width(w.n); return o; }
template <class C, class T> inline basic_ostream<C, T>& operator << (basic_ostream<C, T>& o, vp_setfill f) { o.fill(f.c); return o; }
template <class C, class T> inline basic_istream<C, T>& operator >> (basic_istream<C, T>& o, vp_setw) { return o; }
inline vp_manip setprecision(int) { return vp_manip(); } inline vp_manip setbase(int) { return vp_manip(); } inline vp_manip setiosflags(int) { return vp_manip(); } inline vp_manip resetiosflags(int) { return vp_manip(); }
template <class C, class T> inline basic_ostream<C, T>& operator << (basic_ostream<C, T>& o, vp_manip) { return o; }
template <class C, class T> inline basic_istream<C, T>& operator >> (basic_istream<C, T>& o, vp_manip) { return o; }
// used by <bits/basic_string.h> operator<<
template <class C, class T> inline basic_ostream<C, T>& vp_insert(basic_ostream<C, T>& o, const C* s, streamsize n) { o.vp_text(s, n); return o; }
template <> inline basic_istream<char>& getline(basic_istream<char>& i, basic_string<char>& s, char d) { s.clear(); bool any = false; while (i.vp_pos < i.vp_in.size()) { any = true; char c = i.vp_in[i.vp_pos++]; if (c == d) return i; s += c; } i.vp_state |= any ? 2 : 6; return i; }
extern ostream cout, cerr, clog; extern istream cin;
}
#include <bits/streambuf_iterator.h>
#include <bits/stream_iterator.h>
#endif

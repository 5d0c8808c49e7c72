// Streams for symbolic execution: what is written to them is text of the same content as the library's.
#ifndef VF_STREAMS
#define VF_STREAMS
#include <iosfwd>
#include <string>
#include <cstdio>
namespace std {
class ios_base {
public:
  typedef unsigned fmtflags; typedef unsigned openmode; typedef unsigned iostate; typedef int seekdir;
  static constexpr fmtflags boolalpha = 1, dec = 2, fixed = 4, hex = 8, internal = 16, left = 32, oct = 64, right = 128, scientific = 256, showbase = 512,
    showpoint = 1024, showpos = 2048, skipws = 4096, unitbuf = 8192, uppercase = 16384, adjustfield = 176, basefield = 74, floatfield = 260;
  static constexpr openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
  static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  static constexpr seekdir beg = 0, cur = 1, end = 2;
  struct Init { Init() {} };
  fmtflags flags() const { return f_; }
  fmtflags flags(fmtflags f) { fmtflags o = f_; f_ = f; return o; }
  fmtflags setf(fmtflags f) { fmtflags o = f_; f_ |= f; return o; }
  fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = f_; f_ = (f_ & ~m) | (f & m); return o; }
  void unsetf(fmtflags f) { f_ &= ~f; }
  streamsize width() const { return w_; }
  streamsize width(streamsize w) { streamsize o = w_; w_ = w; return o; }
  streamsize precision() const { return p_; }
  streamsize precision(streamsize p) { streamsize o = p_; p_ = p; return o; }
  static bool sync_with_stdio(bool = true) { return true; }
  virtual ~ios_base() {}
protected:
  fmtflags f_ = dec | skipws; streamsize w_ = 0, p_ = 6;
};
#define VF_FLAG(n, s, m) inline ios_base &n(ios_base &b) { b.setf(s, m); return b; }
VF_FLAG(hex, ios_base::hex, ios_base::basefield) VF_FLAG(dec, ios_base::dec, ios_base::basefield) VF_FLAG(oct, ios_base::oct, ios_base::basefield)
VF_FLAG(left, ios_base::left, ios_base::adjustfield) VF_FLAG(right, ios_base::right, ios_base::adjustfield) VF_FLAG(internal, ios_base::internal, ios_base::adjustfield)
VF_FLAG(boolalpha, ios_base::boolalpha, ios_base::boolalpha) VF_FLAG(noboolalpha, 0, ios_base::boolalpha)
VF_FLAG(showbase, ios_base::showbase, ios_base::showbase) VF_FLAG(noshowbase, 0, ios_base::showbase)
VF_FLAG(uppercase, ios_base::uppercase, ios_base::uppercase) VF_FLAG(nouppercase, 0, ios_base::uppercase)
VF_FLAG(skipws, ios_base::skipws, ios_base::skipws) VF_FLAG(noskipws, 0, ios_base::skipws) VF_FLAG(unitbuf, ios_base::unitbuf, ios_base::unitbuf)
VF_FLAG(showpos, ios_base::showpos, ios_base::showpos) VF_FLAG(fixed, ios_base::fixed, ios_base::floatfield) VF_FLAG(scientific, ios_base::scientific, ios_base::floatfield)
#undef VF_FLAG
template <> class basic_ios<char, char_traits<char>> : public ios_base {
protected:
  iostate s_ = 0; char c_ = ' ';
public:
  bool good() const { return !s_; } bool eof() const { return s_ & eofbit; } bool fail() const { return s_ & (failbit | badbit); } bool bad() const { return s_ & badbit; }
  iostate rdstate() const { return s_; } void clear(iostate s = 0) { s_ = s; } void setstate(iostate s) { s_ |= s; }
  explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); }
  char fill() const { return c_; } char fill(char c) { char o = c_; c_ = c; return o; }
  void exceptions(iostate) {}
};
template <> class basic_ostream<char, char_traits<char>> : virtual public basic_ios<char> {
  typedef basic_ostream O;
protected:
  virtual void vf_put(const char *, size_t) {}
public:
  void vf_text(const char *t, size_t n)
  {
    size_t w = (size_t)width(0), pad = n < w ? w - n : 0; bool l = (flags() & adjustfield) == left;
    string s; if (!l) s.append(pad, fill()); s.append(t, n); if (l) s.append(pad, fill()); vf_put(s.data(), s.size());
  }
private:
  template <class V, class U> O &num(V v, const char *len, U u, bool neg)
  {
    char f[16], b[40], *p = f; *p++ = '%'; fmtflags g = flags();
    if (g & showbase) *p++ = '#';
    if (g & showpos && !(g & (hex | oct))) *p++ = '+';
    while (*len) *p++ = *len++;
    bool h = g & hex, o = g & oct;
    *p++ = h ? (g & uppercase ? 'X' : 'x') : o ? 'o' : neg ? 'd' : 'u'; *p = 0;
    size_t n = (h || o) ? snprintf(b, sizeof b, f, u) : snprintf(b, sizeof b, f, v);
    vf_text(b, n); return *this;
  }
  O &flt(double v) { char f[8] = "%.*g", b[400]; if (flags() & fixed) f[3] = 'f'; if (flags() & scientific) f[3] = 'e'; size_t n = snprintf(b, sizeof b, f, (int)precision(), v); vf_text(b, n); return *this; }
public:
  O &operator<<(bool v) { if (flags() & ios_base::boolalpha) { vf_text(v ? "true" : "false", v ? 4 : 5); return *this; } return *this << (int)v; }
  O &operator<<(short v) { return num(v, "h", (unsigned short)v, true); }
  O &operator<<(unsigned short v) { return num(v, "h", v, false); }
  O &operator<<(int v) { return num(v, "", (unsigned)v, true); }
  O &operator<<(unsigned v) { return num(v, "", v, false); }
  O &operator<<(long v) { return num(v, "l", (unsigned long)v, true); }
  O &operator<<(unsigned long v) { return num(v, "l", v, false); }
  O &operator<<(long long v) { return num(v, "ll", (unsigned long long)v, true); }
  O &operator<<(unsigned long long v) { return num(v, "ll", v, false); }
  O &operator<<(double v) { return flt(v); }
  O &operator<<(float v) { return flt(v); }
  O &operator<<(long double v) { return flt((double)v); }
  O &operator<<(const void *v) { char b[40]; size_t n = v ? snprintf(b, sizeof b, "%p", v) : snprintf(b, sizeof b, "0"); vf_text(b, n); return *this; }
  O &operator<<(nullptr_t) { vf_text("nullptr", 7); return *this; }
  O &operator<<(O &(*f)(O &)) { return f(*this); }
  O &operator<<(basic_ios<char> &(*f)(basic_ios<char> &)) { f(*this); return *this; }
  O &operator<<(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
  O &put(char c) { vf_put(&c, 1); return *this; }
  O &write(const char *s, streamsize n) { vf_put(s, (size_t)n); return *this; }
  O &flush() { return *this; }
};
inline ostream &operator<<(ostream &o, char c) { o.vf_text(&c, 1); return o; }
inline ostream &operator<<(ostream &o, signed char c) { return o << (char)c; }
inline ostream &operator<<(ostream &o, unsigned char c) { return o << (char)c; }
inline ostream &operator<<(ostream &o, const char *s) { if (!s) { o.setstate(ios_base::badbit); return o; } o.vf_text(s, char_traits<char>::length(s)); return o; }
inline ostream &operator<<(ostream &o, const signed char *s) { return o << (const char *)s; }
inline ostream &operator<<(ostream &o, const unsigned char *s) { return o << (const char *)s; }
inline ostream &operator<<(ostream &o, const string &s) { o.vf_text(s.data(), s.size()); return o; }
inline ostream &operator<<(ostream &o, basic_string_view<char> s) { o.vf_text(s.data(), s.size()); return o; }
template <class T> ostream &&operator<<(ostream &&o, const T &t) { static_cast<ostream &>(o) << t; return static_cast<ostream &&>(o); }
inline ostream &endl(ostream &o) { return o.put('\n'); }
inline ostream &ends(ostream &o) { return o.put(0); }
inline ostream &flush(ostream &o) { return o; }
struct vf_setw { int n; }; struct vf_setprecision { int n; }; struct vf_setfill { char c; }; struct vf_setbase { int n; };
inline vf_setw setw(int n) { return {n}; } inline vf_setprecision setprecision(int n) { return {n}; } inline vf_setfill setfill(char c) { return {c}; } inline vf_setbase setbase(int n) { return {n}; }
inline ostream &operator<<(ostream &o, vf_setw w) { o.width(w.n); return o; }
inline ostream &operator<<(ostream &o, vf_setprecision w) { o.precision(w.n); return o; }
inline ostream &operator<<(ostream &o, vf_setfill w) { o.fill(w.c); return o; }
inline ostream &operator<<(ostream &o, vf_setbase w) { o.setf(w.n == 16 ? ios_base::hex : w.n == 8 ? ios_base::oct : ios_base::dec, ios_base::basefield); return o; }
template <> class basic_istream<char, char_traits<char>> : virtual public basic_ios<char> {
protected:
  virtual int vf_get(bool) { return -1; }
public:
  int get() { int c = vf_get(true); if (c < 0) setstate(eofbit | failbit); return c; }
  int peek() { int c = vf_get(false); if (c < 0) setstate(eofbit); return c; }
  basic_istream &get(char &c) { int x = get(); if (x >= 0) c = (char)x; return *this; }
  basic_istream &vf_skip() { while (true) { int c = vf_get(false); if (c != ' ' && !(c >= 9 && c <= 13)) return *this; vf_get(true); } }
  bool vf_word(string &s) { s.clear(); if (fail()) return false; vf_skip(); while (true) { int c = vf_get(false); if (c < 0) setstate(eofbit); if (c < 0 || c == ' ' || (c >= 9 && c <= 13)) break; s += (char)vf_get(true); } if (s.empty()) setstate(failbit); return !s.empty(); }
  template <class V> basic_istream &vf_int(V &v)
  {
    if (fail()) return *this;
    vf_skip(); bool neg = false; int c = vf_get(false); if (c == '-' || c == '+') { neg = c == '-'; vf_get(true); }
    V r = 0; bool any = false; while ((c = vf_get(false)) >= '0' && c <= '9') { r = r * 10 + (c - '0'); vf_get(true); any = true; }
    if (c < 0) setstate(eofbit); v = neg ? -r : r; if (!any) setstate(failbit); return *this;
  }
  basic_istream &operator>>(int &v) { return vf_int(v); } basic_istream &operator>>(unsigned &v) { return vf_int(v); }
  basic_istream &operator>>(long &v) { return vf_int(v); } basic_istream &operator>>(unsigned long &v) { return vf_int(v); }
  basic_istream &operator>>(short &v) { return vf_int(v); } basic_istream &operator>>(unsigned short &v) { return vf_int(v); }
};
inline istream &operator>>(istream &i, string &s) { i.vf_word(s); return i; }
inline istream &operator>>(istream &i, char &c) { i.vf_skip(); return i.get(c); }
inline istream &ws(istream &i) { return i.vf_skip(); }
inline istream &getline(istream &i, string &s, char d = '\n') { s.clear(); bool any = false; while (true) { int c = i.get(); if (c < 0) { if (any) i.clear(ios_base::eofbit); return i; } any = true; if ((char)c == d) return i; s += (char)c; } }
template <> class basic_iostream<char, char_traits<char>> : public basic_istream<char>, public basic_ostream<char> {};
_GLIBCXX_BEGIN_NAMESPACE_CXX11
template <> class basic_ostringstream<char, char_traits<char>, allocator<char>> : public basic_ostream<char> {
  string t;
  void vf_put(const char *s, size_t n) override { t.append(s, n); }
public:
  basic_ostringstream() {}
  explicit basic_ostringstream(ios_base::openmode) {}
  explicit basic_ostringstream(const string &s, ios_base::openmode m = ios_base::out) { if (m & (ios_base::ate | ios_base::app)) t = s; }
  basic_ostringstream(const basic_ostringstream &) = delete;
  string str() const { return t; } void str(const string &s) { t = s; }
  streamsize tellp() const { return (streamsize)t.size(); }
};
template <> class basic_istringstream<char, char_traits<char>, allocator<char>> : public basic_istream<char> {
  string t; size_t p = 0;
  int vf_get(bool take) override { if (p >= t.size()) return -1; int c = (unsigned char)t[p]; p += take; return c; }
public:
  basic_istringstream() {}
  explicit basic_istringstream(const string &s, ios_base::openmode = ios_base::in) : t(s) {}
  string str() const { return t; } void str(const string &s) { t = s; p = 0; }
};
template <> class basic_stringstream<char, char_traits<char>, allocator<char>> : public basic_iostream<char> {
  string t; size_t p = 0;
  void vf_put(const char *s, size_t n) override { t.append(s, n); }
  int vf_get(bool take) override { if (p >= t.size()) return -1; int c = (unsigned char)t[p]; p += take; return c; }
public:
  basic_stringstream() {}
  explicit basic_stringstream(ios_base::openmode) {}
  explicit basic_stringstream(const string &s, ios_base::openmode = 0) : t(s) {}
  string str() const { return t; } void str(const string &s) { t = s; p = 0; }
};
_GLIBCXX_END_NAMESPACE_CXX11
}
#endif

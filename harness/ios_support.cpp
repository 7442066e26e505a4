// The parts of the standard streams that live in libstdc++ and not in its headers; locales are not encoded.
#include <ostream>
#include <istream>
#include <new>
#include <locale>
#include <streambuf>
namespace std {
static const locale::facet *no_facets[128];
size_t locale::id::_M_id() const throw() { return 0; }
locale::locale() throw() { alignas(16) static char store[sizeof(_Impl)]; _M_impl = (_Impl *)store; _M_impl->_M_facets = no_facets; } // a locale without facets
locale::locale(const locale &x) throw() : _M_impl(x._M_impl) {}
locale::~locale() throw() {}
const locale &locale::operator=(const locale &x) throw() { _M_impl = x._M_impl; return *this; }
ios_base::ios_base() throw() : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(nullptr), _M_word_size(_S_local_word_size), _M_word(_M_local_word) {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; }
void ios_base::_M_move(ios_base &x) noexcept {
  _M_precision = x._M_precision; _M_width = x._M_width; _M_flags = x._M_flags; _M_exception = x._M_exception; _M_streambuf_state = x._M_streambuf_state;
}
void ios_base::_M_swap(ios_base &x) noexcept {
  std::swap(_M_precision, x._M_precision); std::swap(_M_width, x._M_width); std::swap(_M_flags, x._M_flags); std::swap(_M_exception, x._M_exception); std::swap(_M_streambuf_state, x._M_streambuf_state);
}
struct io_error : exception {};
void __throw_ios_failure(const char *) { throw io_error(); }
void __throw_ios_failure(const char *, int) { throw io_error(); }
template class basic_ios<char>;
template class basic_streambuf<char>;
template class basic_ostream<char>;
template class basic_istream<char>;
template class basic_iostream<char>;
template basic_ostream<char> &__ostream_insert(basic_ostream<char> &, const char *, streamsize);
bool uncaught_exception() throw() { return false; }
}

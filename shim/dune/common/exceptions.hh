// Verification shim for dune/common/exceptions.hh: same class hierarchy and macros,
// but messages are dropped (no iostream formatting in the symbolic encoding).
#ifndef DUNE_EXCEPTIONS_HH
#define DUNE_EXCEPTIONS_HH
#include <exception>
#include <string>
#include <sstream>
#include <iostream>
#include <type_traits>
namespace Dune {
  struct ExceptionHook;
  class Exception : public std::exception {
  public:
    Exception () {}
    void message(const std::string &) {}
    const char* what() const noexcept override { return ""; }
    static void registerHook (ExceptionHook *) {}
    static void clearHook () {}
  };
  struct ExceptionHook { virtual ~ExceptionHook() {} virtual void operator () () = 0; };
  inline std::ostream& operator<<(std::ostream &stream, const Exception &e) { return stream; }
  template<class E>
  class ExceptionStream : public E {
  public:
    using E::E;
    ExceptionStream(const E& other) : E(other) {}
    template<class T> requires (requires(std::ostringstream& oss, T t) { oss << t; } and not std::is_integral_v<T>)
    friend ExceptionStream& operator<<(ExceptionStream& es, const T& t) { return es; }
    template<class T> requires (requires(std::ostringstream& oss, T t) { oss << t; } and not std::is_integral_v<T>)
    friend ExceptionStream operator<<(ExceptionStream&& es, const T& t) { return es; }
    template<class T> requires std::is_integral_v<T>
    friend ExceptionStream& operator<<(ExceptionStream& es, T t) { return es; }
    template<class T> requires std::is_integral_v<T>
    friend ExceptionStream operator<<(ExceptionStream&& es, T t) { return es; }
    friend ExceptionStream& operator<<(ExceptionStream& es, std::ostream& (*t)(std::ostream&)) { return es; }
    friend ExceptionStream operator<<(ExceptionStream&& es, std::ostream& (*t)(std::ostream&)) { return es; }
  };
#define THROWSPEC(E) # E
#define DUNE_THROW(E, ...) throw Dune::ExceptionStream(E()) << THROWSPEC(E) __VA_OPT__(<<) __VA_ARGS__
  class IOError : public Exception {};
  class MathError : public Exception {};
  class RangeError : public Exception {};
  class NotImplemented : public Exception {};
  class SystemError : public Exception {};
  class OutOfMemoryError : public SystemError {};
  class InvalidStateException : public Exception {};
  class ParallelError : public Exception {};
}
#endif

#pragma once
// Analysis-only stand-in for vendor/NamedType.
#include <utility>
#include <type_traits>
#include <functional>
#define FLUENT_NODISCARD
#define FLUENT_CONSTEXPR17
namespace fluent {
template<class T, template<class> class C> struct crtp { T & underlying(); T const & underlying() const; };
template<class T, class Tag, template<class> class... Skills>
class NamedType : public Skills<NamedType<T, Tag, Skills...>>... {
public:
  using UnderlyingType = T;
  NamedType();
  explicit constexpr NamedType(T const & v);
  explicit constexpr NamedType(T && v);
  T & get(); T const & get() const;
};
template<class N> struct Callable;
template<class T, class Tag, template<class> class... S>
struct Callable<NamedType<T, Tag, S...>> { operator T const &() const; operator T &(); T const * operator->() const; T * operator->(); };
template<class N> struct Comparable { bool operator<(N const &) const; bool operator>(N const &) const; bool operator==(N const &) const; bool operator!=(N const &) const; bool operator<=(N const &) const; bool operator>=(N const &) const; };
template<class N> struct BinaryAddable { N operator+(N const &) const; N & operator+=(N const &); };
template<class N> struct UnaryAddable { N operator+() const; };
template<class N> struct Addable { N operator+(N const &) const; N & operator+=(N const &); };
template<class N> struct BinarySubtractable { N operator-(N const &) const; N & operator-=(N const &); };
template<class N> struct UnarySubtractable { N operator-() const; };
template<class N> struct Subtractable { N operator-() const; N operator-(N const &) const; N & operator-=(N const &); };
template<class N> struct Multiplicable { N operator*(N const &) const; };
template<class N> struct Divisible { N operator/(N const &) const; };
template<class N> struct Printable {};
template<class N> struct Hashable {};
}

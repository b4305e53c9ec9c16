// Analysis-only stand-in for cereal: just enough surface to resolve SIREN's
// serialization code.  Registration macros leave a typed marker variable.
#pragma once
#include <cstdint>
#include <cstddef>
#include <memory>
#include <string>
#include <iostream>
#include <stdexcept>
#include <sstream>
#include <type_traits>
#include <map>
#include <set>
#include <vector>
#include <array>
#include <utility>
#include <functional>
namespace cereal {
class access { public: template<class T> static void construct(T*&) {} };
template<class T> struct NameValuePair { const char * name; T value; };
template<class T> NameValuePair<T> make_nvp(std::string const &, T &&);
template<class T> NameValuePair<T> make_nvp(const char *, T &&);
template<class Base, class Derived> struct base_class_t {};
template<class Base> struct virtual_base_class { template<class D> virtual_base_class(D const * d); };
template<class Base> struct base_class { template<class D> base_class(D const * d); };
template<class T> class construct { public: template<class... A> void operator()(A&&...); T * operator->(); T * ptr(); };
struct Exception : public std::runtime_error { using std::runtime_error::runtime_error; };
template<class T> struct SizeTag { T size; };
template<class T> SizeTag<T> make_size_tag(T&&);
template<class T> struct BinaryData { T data; };
template<class T> BinaryData<T> binary_data(T&&, std::size_t);
namespace detail { struct OutputArchiveBase {}; struct InputArchiveBase {}; }
template<class A, int F=0> class OutputArchive { public: OutputArchive(A*); template<class... T> A & operator()(T&&...); };
template<class A, int F=0> class InputArchive { public: InputArchive(A*); template<class... T> A & operator()(T&&...); };
enum { AllowEmptyClassElision = 1 };
namespace traits { template<class T, class A> struct is_output_serializable { static constexpr bool value = false; }; template<class T, class A> struct is_input_serializable { static constexpr bool value = false; }; }
template<class T> struct size_type_;
using size_type = std::uint64_t;
#define CEREAL_NOEXCEPT noexcept
#define CEREAL_SAVE_FUNCTION_NAME save
#define CEREAL_LOAD_FUNCTION_NAME load
#define CEREAL_SERIALIZE_FUNCTION_NAME serialize
#define CEREAL_SAVE_MINIMAL_FUNCTION_NAME save_minimal
#define CEREAL_LOAD_MINIMAL_FUNCTION_NAME load_minimal
#define CEREAL_NVP(x) ::cereal::make_nvp(#x, x)
}
namespace siren_sa_marks {
template<class T, int V> struct ClassVersion {};
template<class T> struct RegisterType {};
template<class B, class D> struct RegisterRelation {};
template<class A> struct RegisterArchive {};
}
#define SIREN_SA_CAT2(a,b) a##b
#define SIREN_SA_CAT(a,b) SIREN_SA_CAT2(a,b)
#define CEREAL_CLASS_VERSION(T, V) namespace siren_sa_marks { static ClassVersion<T, V> SIREN_SA_CAT(mark_, __COUNTER__); }
#define CEREAL_REGISTER_TYPE(...) namespace siren_sa_marks { static RegisterType<__VA_ARGS__> SIREN_SA_CAT(mark_, __COUNTER__); }
#define CEREAL_REGISTER_TYPE_WITH_NAME(T, N) namespace siren_sa_marks { static RegisterType<T> SIREN_SA_CAT(mark_, __COUNTER__); }
#define CEREAL_REGISTER_POLYMORPHIC_RELATION(B, D) namespace siren_sa_marks { static RegisterRelation<B, D> SIREN_SA_CAT(mark_, __COUNTER__); }
#define CEREAL_REGISTER_ARCHIVE(A) namespace siren_sa_marks { static RegisterArchive<A> SIREN_SA_CAT(mark_, __COUNTER__); }
#define CEREAL_REGISTER_DYNAMIC_INIT(N) namespace siren_sa_marks { static const char * const SIREN_SA_CAT(dyninit_, __COUNTER__) = #N; }
#define CEREAL_FORCE_DYNAMIC_INIT(N) namespace siren_sa_marks { static const char * const SIREN_SA_CAT(forceinit_, __COUNTER__) = #N; }
#define CEREAL_SETUP_ARCHIVE_TRAITS(I, O)
#define CEREAL_SPECIALIZE_FOR_ALL_ARCHIVES(T, S)
#define CEREAL_SPECIALIZE_FOR_ARCHIVE(A, T, S)

#pragma once
// Analysis-only stand-in for vendor/photospline.
#include <string>
#include <memory>
#include <utility>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
namespace photospline {
template<class A = std::allocator<void>> class splinetable {
public:
  splinetable(); splinetable(const char *); splinetable(std::string const &);
  splinetable(splinetable &&); splinetable & operator=(splinetable &&);
  splinetable(splinetable const &) ; 
  std::uint32_t get_ndim() const;
  double lower_extent(std::uint32_t) const; double upper_extent(std::uint32_t) const;
  bool searchcenters(const double *, int *) const;
  double ndsplineeval(const double *, const int *, int) const;
  template<class T> bool read_key(const char *, T &) const;
  template<class T> bool write_key(const char *, T const &);
  bool read_fits_mem(void *, std::size_t);
  std::pair<void *, std::size_t> write_fits_mem() const;
  bool operator==(splinetable const &) const; bool operator!=(splinetable const &) const;
  bool operator<(splinetable const &) const;
};
}

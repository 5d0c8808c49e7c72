// boost::hash_combine without collisions: two hashes are the same exactly when the same values were combined in the
// same order. Native builds use the library's.
#ifndef VF_SYMBOLIC
#include_next <boost/functional/hash.hpp>
#else
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
namespace vf {
struct Mixed { std::size_t seed, value; };
inline Mixed mixed[4096];
inline unsigned nmixed;
inline std::size_t mix(std::size_t seed, std::size_t value)
{
  for (unsigned n = 0; n < nmixed; n++)
    if ((mixed[n].seed == seed) & (mixed[n].value == value)) return 0x5000000000000000ul + n;
  mixed[nmixed].seed = seed;
  mixed[nmixed].value = value;
  return 0x5000000000000000ul + nmixed++;
}
}
namespace boost {
template<typename T> void hash_combine(std::size_t &seed, const T &v);
template<typename I> std::size_t hash_range(I b, I e)
{
  std::size_t s = 0x4000000000000000ul;
  for (; b != e; ++b) hash_combine(s, *b);
  return s;
}
template<typename T> std::enable_if_t<std::is_arithmetic_v<T> || std::is_enum_v<T>, std::size_t> hash_value(T v) { return (std::size_t)v; }
inline std::size_t hash_value(const std::string &v)
{
  if (v.size() > 6) return hash_range(v.begin(), v.end());
  std::size_t h = 0x3000 + v.size();
  for (char c : v) h = h << 8 | (unsigned char)c;
  return h;
}
template<typename T> std::size_t hash_value(const std::vector<T> &v) { return hash_range(v.begin(), v.end()); }
template<typename A, typename B> std::size_t hash_value(const std::pair<A, B> &v) { std::size_t s = 0; hash_combine(s, v.first); hash_combine(s, v.second); return s; }
template<typename... A> std::size_t hash_value(const std::variant<A...> &v)
{
  std::size_t s = v.index();
  hash_combine(s, std::visit([](const auto &x) -> std::size_t { return x.getHash(); }, v));
  return s;
}
template<typename T> void hash_combine(std::size_t &seed, const T &v) { seed = vf::mix(seed, hash_value(v)); }
}
#endif

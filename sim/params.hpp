#ifndef MFSIM_PARAMS_HPP
#define MFSIM_PARAMS_HPP
#include <cstdlib>
#include <map>
#include <string>
namespace mfsim
{
struct Params
{
  std::map<std::string, std::string> kv;
  bool has(std::string const &k) const { return kv.count(k); }
  std::string str(std::string const &k, std::string const &d = "") const
  {
    auto it = kv.find(k);
    return it == kv.end() ? d : it->second;
  }
  long num(std::string const &k, long d) const
  {
    auto it = kv.find(k);
    return it == kv.end() ? d : strtol(it->second.c_str(), nullptr, 0);
  }
  double real(std::string const &k, double d) const
  {
    auto it = kv.find(k);
    return it == kv.end() ? d : strtod(it->second.c_str(), nullptr);
  }
};
} // namespace mfsim
#endif

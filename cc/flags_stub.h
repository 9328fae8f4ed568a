// Stands in for absl/flags: string, number and string-list flags given as
// --name=value.  Included before the program's source.
#ifndef VERIF_FLAGS_STUB_H_
#define VERIF_FLAGS_STUB_H_
#define ABSL_FLAGS_FLAG_H_
#define ABSL_FLAGS_PARSE_H_
#include <stdint.h>

#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace flags_stub {
namespace {
std::map<std::string, std::string>& Given() {
  static auto* m = new std::map<std::string, std::string>();
  return *m;
}
template <class T>
T Parse(const std::string& s) {
  std::istringstream i(s);
  T v{};
  i >> v;
  return v;
}
template <>
std::string Parse<std::string>(const std::string& s) {
  return s;
}
template <>
std::vector<std::string> Parse<std::vector<std::string>>(const std::string& s) {
  std::vector<std::string> v;
  std::istringstream i(s);
  std::string x;
  while (std::getline(i, x, ',')) v.push_back(x);
  return v;
}
template <class T>
struct Flag {
  std::string name;
  T value;
};
}  // namespace
}  // namespace flags_stub
namespace absl {
namespace {
template <class T>
T GetFlag(const flags_stub::Flag<T>& f) {
  auto it = flags_stub::Given().find(f.name);
  return it == flags_stub::Given().end() ? f.value : flags_stub::Parse<T>(it->second);
}
std::vector<char*> ParseCommandLine(int argc, char** argv) {
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    const size_t e = a.find('=');
    if (a.rfind("--", 0) == 0 && e != std::string::npos) flags_stub::Given()[a.substr(2, e - 2)] = a.substr(e + 1);
  }
  return {};
}
}  // namespace
}  // namespace absl
#define ABSL_FLAG(type, name, def, help) flags_stub::Flag<type> FLAGS_##name { #name, def }
#endif

#ifndef VERIF_SHIM_PARSE_H_
#define VERIF_SHIM_PARSE_H_
#include <cstring>

#include "absl/flags/flag.h"
namespace absl {
// Understands --name=value, which is all the checks use.
inline std::vector<char*> ParseCommandLine(int argc, char* argv[]) {
  std::vector<char*> rest;
  for (int i = 0; i < argc; ++i) {
    const char* eq = strchr(argv[i], '=');
    if (i > 0 && !strncmp(argv[i], "--", 2) && eq) {
      auto it = verif_flags::Setters().find(std::string(const_cast<const char*>(argv[i]) + 2, eq));
      if (it == verif_flags::Setters().end()) exit(1);
      it->second(eq + 1);
    } else {
      rest.push_back(argv[i]);
    }
  }
  return rest;
}
}  // namespace absl
#endif

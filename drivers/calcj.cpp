// Runs the real calc_J entry point (its object file with main renamed) on an argv.
// Body: line 1 "cwd %hex", lines "env %hex %hex", then one line "%hex" per argument (argv[0] included).
#include "server.hpp"
extern "C" int calcj_entry(int argc, const char **argv);
int vf_case(const std::string &body, FILE *res) {
  auto ls = vf_lines(body);
  std::vector<std::string> a;
  for (auto &l : ls) {
    if (l.t[0] == "cwd") {
      l.i = 1;
      if (chdir(l.s().c_str())) return 97;
    } else if (l.t[0] == "env") {
      l.i = 1;
      std::string k = l.s(), v = l.s();
      setenv(k.c_str(), v.c_str(), 1);
    } else {
      a.push_back(l.s());
    }
  }
  std::vector<const char *> av;
  for (auto &s : a) av.push_back(s.c_str());
  av.push_back(nullptr);
  return calcj_entry((int)a.size(), av.data());
}

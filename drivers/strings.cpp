// string_support: one call per line, answers in hex.
#include "server.hpp"
#include "string_support.hpp"
using namespace catnip;
int vf_case(const std::string &body, FILE *R) {
  for (auto &l : vf_lines(body)) {
    std::string o = l.raw();
    try {
      std::string s = l.s(), r;
      if (o == "splitSt") {
        auto v = splitSt(s);
        fprintf(R, "l");
        for (auto &x : v) {
          fputc(' ', R);
          vf_hex(R, x);
        }
        fputs(" ok\n", R);
        fflush(R);
        continue;
      }
      if (o == "found" || o == "isAlpha") {
        fprintf(R, "b %d ok\n", o == "found" ? (int)foundSubStrInStr(s, l.s()) : (int)isAlphabetical(s));
        fflush(R);
        continue;
      }
      if (o == "last") r = lastStringInPath(s);
      else if (o == "path") r = getPath(s);
      else if (o == "lastN") r = lastN(s, l.n());
      else if (o == "cut_end") r = cut_end(s, l.n());
      else if (o == "firstN") r = firstN(s, l.n());
      else if (o == "cut_beg") r = cut_beg(s, l.n());
      else if (o == "trim") { trim(s); r = s; }
      else if (o == "ltrimmed") r = ltrimmed(s);
      else if (o == "rtrimmed") r = rtrimmed(s);
      else if (o == "trimmed") r = trimmed(s);
      else if (o == "after1") r = grabStrAfterFirstOccurance(s, l.s());
      else if (o == "afterL") r = grabStrAfterLastOccurance(s, l.s());
      else if (o == "afterLI") r = grabStrAfterLastOccuranceInclusive(s, l.s());
      else if (o == "before1") r = grabStrBeforeFirstOccurance(s, l.s());
      else if (o == "beforeL") r = grabStrBeforeLastOccurance(s, l.s());
      else if (o == "beforeLI") r = grabStrBeforeLastOccuranceInclusive(s, l.s());
      else throw std::logic_error("driver: unknown operation " + o);
      fputs("s ", R);
      vf_hex(R, r);
      fputs(" ok\n", R);
    } catch (const std::exception &e) {
      fputs("X ", R);
      vf_hex(R, e.what());
      fputc('\n', R);
    }
    fflush(R);
  }
  return 0;
}

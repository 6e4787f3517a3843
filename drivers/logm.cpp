// The LOG macro with a level that is chosen at run time.
extern int vf_level;
#define LOG_LEVEL vf_level
#include "server.hpp"
#include "log.hpp"
#include <iomanip>
using namespace catnip;
int vf_level = 0;

struct Item {
  char kind;
  std::string s;
  double d;
  int i;
};
struct Case {
  std::string file;
  int line, level;
  std::vector<Item> items;
};

template <int Left, typename L>
struct Rec {
  static void go(const Case &c, size_t k, LogData<L> &&d) {
    if (k == c.items.size()) {
      Log(c.file.c_str(), c.line, std::move(d), c.level);
      return;
    }
    const Item &x = c.items[k];
    switch (x.kind) {
      case 's': { auto &&n = std::move(d) << x.s; Rec<Left - 1, decltype(n.list)>::go(c, k + 1, std::move(n)); break; }
      case 'c': { auto &&n = std::move(d) << "liter al"; Rec<Left - 1, decltype(n.list)>::go(c, k + 1, std::move(n)); break; }
      case 'd': { auto &&n = std::move(d) << x.d; Rec<Left - 1, decltype(n.list)>::go(c, k + 1, std::move(n)); break; }
      case 'i': { auto &&n = std::move(d) << x.i; Rec<Left - 1, decltype(n.list)>::go(c, k + 1, std::move(n)); break; }
      case 'e': { auto &&n = std::move(d) << std::endl; Rec<Left - 1, decltype(n.list)>::go(c, k + 1, std::move(n)); break; }
      default: throw std::logic_error("driver: kind");
    }
  }
};
template <typename L>
struct Rec<-1, L> {
  static void go(const Case &, size_t, LogData<L> &&) { throw std::logic_error("driver: depth"); }
};

int vf_case(const std::string &body, FILE *res) {
  for (auto &l : vf_lines(body)) {
    Case c;
    vf_level = l.n();
    c.level = l.n();
    std::string how = l.raw();
    if (how == "macro") {
      std::string a = l.s();
      int b = l.n();
      double d = l.d();
      int line = 0, evaluated = 0;
      switch (l.n()) {
        case 0: line = __LINE__; LOG(a, c.level); break;
        case 1: line = __LINE__; LOG("x " + a, c.level); break;
        case 2: line = __LINE__; LOG(a << " and " << b, c.level); break;
        case 3: line = __LINE__; LOG("v" << d << ", " << (++evaluated) << a, c.level); break;
        default: line = __LINE__; if (b > 0) LOG("positive", c.level); else LOG("other", c.level); break;
      }
      fprintf(res, "%d %d ", line, evaluated);
      vf_hex(res, __FILE__);
      fputc('\n', res);
    } else {
      c.file = l.s();
      c.line = l.n();
      while (l.more()) {
        Item x;
        x.kind = l.raw()[0];
        if (x.kind == 's') x.s = l.s();
        if (x.kind == 'd') x.d = l.d();
        if (x.kind == 'i') x.i = l.n();
        c.items.push_back(x);
      }
      Rec<3, None>::go(c, 0, LogData<None>());
      fputs("0 0 %\n", res);
    }
    std::cout << "\x01" << std::flush;
  }
  return 0;
}

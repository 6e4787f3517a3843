// Command line of calc_J, ArgumentParser, and the rules of arguments.
#include "server.hpp"
#include "io/argumentparser.hpp"
#include "io/arguments/properties/propertydouble.hpp"
#include "io/arguments/properties/propertyfileexist.hpp"
#include "io/arguments/properties/propertyfileext.hpp"
#include "io/arguments/properties/propertyint.hpp"
#include "io/arguments/properties/propertysisterfile.hpp"
#include "io/arguments/properties/propertystring.hpp"
#include "io/arguments/properties/propertystringchoice.hpp"
#include "io/arguments/properties/propertyswitch.hpp"
#include "io/io.hpp"
#include "parameters.hpp"
#include <map>
#include <memory>
#include <set>
using namespace catnip;
using std::set;
using std::string;
using std::vector;

static FILE *R;
static std::map<int, std::unique_ptr<ArgumentParser>> AP;
static PropertyInt *PI;
static PropertyDouble *PD;
static PropertyString *PS;
static PropertyStringChoice *PC;
static PropertySwitch *PW;
static PropertyFileExt *PX;
static PropertyFileExist *PE;
static PropertySisterFile *PT;
static ArgumentInt *AI;
static ArgumentDouble *AD;
static ArgumentString *AS;
static ArgumentFile *AF;
static ArgumentSwitch *AW;

static vector<string> strs(VfLine &l) {
  vector<string> v;
  int n = l.n();
  for (int i = 0; i < n; ++i) v.push_back(l.s());
  return v;
}
static set<string> sset(VfLine &l) {
  auto v = strs(l);
  return set<string>(v.begin(), v.end());
}
static void puts_(const string &s) {
  fputs("s ", R);
  vf_hex(R, s);
}
static void putset(const set<string> &x) {
  fprintf(R, "l %zu", x.size());
  for (auto &s : x) {
    fputc(' ', R);
    vf_hex(R, s);
  }
}
static void parse(ArgumentParser &p, const vector<string> &a) {
  vector<const char *> av;
  for (auto &s : a) av.push_back(s.c_str());
  av.push_back(nullptr);
  p.parse(av.data(), (int)a.size());
}
template <class P> static P &need(P *&p) {
  if (!p) throw std::logic_error("driver: missing object");
  return *p;
}

static void parser_op(const string &o, VfLine &l) {
  int k = l.n();
  if (o == "new") {
    set<vector<string>> f;
    int n = l.n();
    for (int i = 0; i < n; ++i) f.insert(strs(l));
    std::unique_ptr<ArgumentParser> x(new ArgumentParser(f));
    AP[k] = std::move(x);
    return;
  }
  ArgumentParser &p = *AP.at(k);
  if (o == "parse") {
    parse(p, strs(l));
    return;
  }
  string flag = l.s();
  if (o == "add") {
    p.addFlagArg(flag, l.s());
  } else if (o == "defi") {
    p.setFlagDefaultValue(flag, l.n());
  } else if (o == "defd") {
    p.setFlagDefaultValue(flag, l.d());
  } else if (o == "defs") {
    p.setFlagDefaultValue(flag, l.s());
  } else if (o == "defu") {
    p.setFlagDefaultValue(flag, (size_t)l.u());
  } else if (o == "getu") {
    fprintf(R, "u %zu", p.getSize_t(flag));
  } else if (o == "geti") {
    fprintf(R, "i %d", p.getInt(flag));
  } else if (o == "getd") {
    fprintf(R, "d %.17g", p.getDouble(flag));
  } else if (o == "gets") {
    puts_(p.getStr(flag));
  } else {
    string arg = l.s(), prop = l.s(), opt = l.s();
    if (o == "opti") p.setFlagArgOpt(flag, arg, prop, opt, l.n());
    else if (o == "optd") p.setFlagArgOpt(flag, arg, prop, opt, l.d());
    else if (o == "opts") p.setFlagArgOpt(flag, arg, prop, opt, l.s());
    else if (o == "optset") p.setFlagArgOpt(flag, arg, prop, opt, sset(l));
    else if (o == "optvec") p.setFlagArgOpt(flag, arg, prop, opt, strs(l));
    else if (o == "val") puts_(p.getFlagArgOptValue(flag, arg, prop, opt));
    else throw std::logic_error("driver: unknown operation " + o);
  }
}

// r.<op>: rule objects on their own
static void rule_op(const string &o, VfLine &l) {
  string kind = l.raw();
  if (o == "r.new") {
    string how = l.raw();
    if (kind == "int") PI = new PropertyInt;
    else if (kind == "double") PD = new PropertyDouble;
    else if (kind == "string") PS = new PropertyString;
    else if (kind == "choice") PC = new PropertyStringChoice;
    else if (kind == "switch") PW = new PropertySwitch;
    else if (kind == "ext") {
      if (how == "0") PX = new PropertyFileExt;
      else if (how == "s") PX = new PropertyFileExt(l.s());
      else PX = new PropertyFileExt(sset(l));
    } else if (kind == "exist") {
      if (how == "0") PE = new PropertyFileExist;
      else PE = new PropertyFileExist(l.n());
    } else if (kind == "sister") {
      PT = new PropertySisterFile;
    } else throw std::logic_error("driver: kind");
  } else if (o == "r.set") {
    string opt = l.s();
    string how = l.raw();
    if (kind == "int") need(PI).setPropOption(opt, l.n());
    else if (kind == "double") need(PD).setPropOption(opt, l.d());
    else if (kind == "string") need(PS).setPropOption(opt, (size_t)l.u());
    else if (kind == "switch") need(PW).setPropOption(opt, l.s());
    else if (kind == "exist") need(PE).setPropOption(opt, l.n());
    else if (kind == "sister") {
      if (how == "s") need(PT).setPropOption(opt, l.s());
      else need(PT).setPropOption(opt, strs(l));
    }
    else if (kind == "choice") {
      if (how == "s") need(PC).setPropOption(opt, l.s());
      else need(PC).setPropOption(opt, sset(l));
    } else if (kind == "ext") {
      if (how == "s") need(PX).setPropOption(opt, l.s());
      else need(PX).setPropOption(opt, sset(l));
    } else throw std::logic_error("driver: kind");
  } else if (o == "r.get") {
    string opt = l.s();
    if (kind == "int") fprintf(R, "i %d", need(PI).getPropOption(opt));
    else if (kind == "double") fprintf(R, "d %.17g", need(PD).getPropOption(opt));
    else if (kind == "string") fprintf(R, "u %zu", need(PS).getPropOption(opt));
    else if (kind == "switch") puts_(need(PW).getPropOption(opt));
    else if (kind == "exist") fprintf(R, "i %d", need(PE).getPropOption(opt));
    else if (kind == "sister") {
      auto v = need(PT).getPropOption(opt);
      fprintf(R, "l %zu", v.size());
      for (auto &x : v) {
        fputc(' ', R);
        vf_hex(R, x);
      }
    }
    else if (kind == "choice") putset(need(PC).getPropOption(opt));
    else if (kind == "ext") putset(need(PX).getPropOption(opt));
    else throw std::logic_error("driver: kind");
  } else if (o == "r.valid") {
    bool b;
    if (kind == "int") b = need(PI).propValid(l.n());
    else if (kind == "double") b = need(PD).propValid(l.d());
    else if (kind == "string") b = need(PS).propValid(l.s());
    else if (kind == "switch") b = need(PW).propValid(l.s());
    else if (kind == "switchint") b = need(PW).propValid(l.n());
    else if (kind == "exist") b = need(PE).propValid(l.s());
    else if (kind == "sister") b = need(PT).propValid(l.s());
    else if (kind == "choice") b = need(PC).propValid(l.s());
    else if (kind == "ext") b = need(PX).propValid(l.s());
    else throw std::logic_error("driver: kind");
    fprintf(R, "i %d", (int)b);
  } else if (o == "r.post") {
    if (kind == "exist") need(PE).postCheck();
    else throw std::logic_error("driver: kind");
  } else throw std::logic_error("driver: unknown operation " + o);
}

// a.<op>: argument objects with their rules
template <class A> static void arg_common(A &a, const string &o, VfLine &l) {
  if (o == "a.get") {
    string prop = l.s(), opt = l.s();
    puts_(a.getPropertyValues(prop, opt));
  } else if (o == "a.list") {
    // names of the rules, of their options, and the values of all options
    for (auto &s : {a.getArgumentName()}) puts_(s);
    fputs(" ok\n", R);
    auto p = a.getProperties();
    putset(set<string>(p.begin(), p.end()));
    fputs(" ok\n", R);
    auto q = a.getPropertyOptions();
    putset(set<string>(q.begin(), q.end()));
    for (auto &kv : a.getPropertyValues()) {
      fputs(" ok\nl 2 ", R);
      vf_hex(R, kv.first);
      fputc(' ', R);
      vf_hex(R, kv.second);
    }
  } else if (o == "a.post") {
    a.postArgCheck();
  } else if (o == "a.set") {
    string prop = l.s(), opt = l.s(), how = l.raw();
    if (how == "i") a.setArgPropertyOpt(prop, opt, l.n());
    else if (how == "d") a.setArgPropertyOpt(prop, opt, l.d());
    else if (how == "s") a.setArgPropertyOpt(prop, opt, l.s());
    else if (how == "set") a.setArgPropertyOpt(prop, opt, sset(l));
    else a.setArgPropertyOpt(prop, opt, strs(l));
  } else throw std::logic_error("driver: unknown operation " + o);
}
static void arg_op(const string &o, VfLine &l) {
  string kind = l.raw();
  if (o == "a.new") {
    if (kind == "int") AI = new ArgumentInt;
    else if (kind == "double") AD = new ArgumentDouble;
    else if (kind == "string") AS = new ArgumentString;
    else if (kind == "file") AF = new ArgumentFile;
    else if (kind == "switch") AW = new ArgumentSwitch;
    else throw std::logic_error("driver: kind");
  } else if (o == "a.valid") {
    bool b;
    if (kind == "int") b = need(AI).argValid(l.n());
    else if (kind == "double") b = need(AD).argValid(l.d());
    else if (kind == "string") b = need(AS).argValid(l.s());
    else if (kind == "file") b = need(AF).argValid(l.s());
    else if (kind == "switch") b = need(AW).argValid(l.s());
    else throw std::logic_error("driver: kind");
    fprintf(R, "i %d", (int)b);
  } else if (o == "a.pos") {
    fprintf(R, "i %d", (int)need(AW).positive(l.s()));
  } else if (kind == "int") arg_common(need(AI), o, l);
  else if (kind == "double") arg_common(need(AD), o, l);
  else if (kind == "string") arg_common(need(AS), o, l);
  else if (kind == "file") arg_common(need(AF), o, l);
  else if (kind == "switch") arg_common(need(AW), o, l);
  else throw std::logic_error("driver: kind");
}

static void op(const string &o, VfLine &l) {
  if (o == "cd") {
    if (chdir(l.s().c_str())) throw std::logic_error("driver: chdir");
  } else if (o == "cli") {
    auto p = prepareParser();
    parse(*p, strs(l));
    auto q = prepareParameters(p);
    fprintf(R, "p %d %d %d", q->getOrbNum1(), q->getOrbNum2(), (int)q->getCounterPoise());
    for (auto &s : {q->getLog1(), q->getLog2(), q->getLogP(), q->getPun1(), q->getPun2(), q->getPunP(), q->getSpin1(),
                    q->getSpin2(), q->getSpinP(), q->getOrbType1(), q->getOrbType2()}) {
      fputc(' ', R);
      vf_hex(R, s);
    }
  } else if (o[0] == 'r' && o[1] == '.') {
    rule_op(o, l);
  } else if (o[0] == 'a' && o[1] == '.') {
    arg_op(o, l);
  } else {
    parser_op(o, l);
  }
}

int vf_case(const std::string &body, FILE *res) {
  R = res;
  AP.clear();
  PI = nullptr; PD = nullptr; PS = nullptr; PC = nullptr; PW = nullptr; PX = nullptr; PE = nullptr;
  AI = nullptr; AD = nullptr; AS = nullptr; AF = nullptr; AW = nullptr;
  for (auto &l : vf_lines(body)) {
    std::string o = l.raw();
    try {
      op(o, l);
      fputs(" ok\n", R);
    } catch (const std::exception &e) {
      fputs(" X ", R);
      vf_hex(R, e.what());
      fputc('\n', R);
    }
    fflush(R);
  }
  return 0;
}

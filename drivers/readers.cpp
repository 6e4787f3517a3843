// PunReader and LogReader: construct, read, query.  One answer line per operation.
#include "server.hpp"
#include "io/file_readers/logreader.hpp"
#include "io/file_readers/punreader.hpp"
#include <map>
#include <memory>
#include <sstream>
using namespace catnip;
using std::vector;

static FILE *R;
static std::map<int, std::unique_ptr<PunReader>> P;
static std::map<int, std::unique_ptr<LogReader>> L;

static void putm(Matrix *m) {
  fprintf(R, "m %d %d", m->get_rows(), m->get_cols());
  for (int i = 1; i <= m->get_rows(); ++i)
    for (int j = 1; j <= m->get_cols(); ++j) fprintf(R, " %.17g", m->get_elem(i, j));
}
static void putv(const vector<double> &v) {
  fprintf(R, "v %zu", v.size());
  for (double x : v) fprintf(R, " %.17g", x);
}

static void op(const std::string &o, VfLine &l) {
  int k = l.n();
  if (o == "put") {
    std::string path = l.s(), text = l.s();
    FILE *f = fopen(path.c_str(), "w");
    if (!f || fwrite(text.data(), 1, text.size(), f) != text.size() || fclose(f)) throw std::logic_error("driver: put");
  } else if (o == "rm") {
    remove(l.s().c_str());
  } else if (o == "pun") {
    std::unique_ptr<PunReader> x(new PunReader(l.s()));
    P[k] = std::move(x);
  } else if (o == "log") {
    std::unique_ptr<LogReader> x(new LogReader(l.s()));
    L[k] = std::move(x);
  } else if (o == "readp") {
    P.at(k)->read();
  } else if (o == "readl") {
    L.at(k)->read();
  } else if (o == "coef") {
    putm(P.at(k)->getCoefsMatrix(l.s()));
  } else if (o == "restr") {
    fprintf(R, "b %d", (int)P.at(k)->restrictedShell());
  } else if (o == "S") {
    putm(L.at(k)->getOverlapMatrix());
  } else if (o == "oe") {
    putv(L.at(k)->getOE(l.s()));
  } else if (o == "homo") {
    fprintf(R, "b %d", L.at(k)->getHOMOLevel(l.s()));
  } else if (o == "xyz") {
    auto x = L.at(k)->getCoords();
    fprintf(R, "x %zu", x.size());
    for (auto &v : x) {
      fputc(' ', R);
      putv(v);
    }
  } else if (o == "bf") {
    auto v = L.at(k)->getBasisFuncCount();
    fprintf(R, "i %zu", v.size());
    for (int x : v) fprintf(R, " %d", x);
  } else if (o == "orb") {
    auto c = L.at(k)->getOrbitalInfo();
    fprintf(R, "o");
    for (auto &a : c)
      for (auto &f : a.second) {
        std::ostringstream name;
        name << a.first.first << ' ';
        fprintf(R, " A %s", name.str().c_str());
        vf_hex(R, a.first.second);
        fputc(' ', R);
        vf_hex(R, f.first);
        for (double x : f.second) fprintf(R, " %.17g", x);
      }
  } else {
    throw std::logic_error("driver: unknown operation " + o);
  }
}

int vf_case(const std::string &body, FILE *res) {
  R = res;
  for (auto &l : vf_lines(body)) {
    std::string o = l.raw();
    try {
      op(o, l);
      fputs(" ok\n", R);
    } catch (const std::exception &e) {
      fputs("X ", R);
      vf_hex(R, e.what());
      fputc('\n', R);
    }
    fflush(R);
  }
  return 0;
}

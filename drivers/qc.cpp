// Library interface of qc_functions.
#include "server.hpp"
#include "matrix.hpp"
#include "qc_functions.hpp"
#include <map>
#include <memory>
using namespace catnip;
using std::vector;
using std::pair;

static FILE *R;
static std::map<int, std::unique_ptr<Matrix>> M;
static std::map<int, std::unique_ptr<TransferComplex>> T;

static void dump(Matrix &m) {
  fprintf(R, "m %d %d", m.get_rows(), m.get_cols());
  for (int i = 1; i <= m.get_rows(); ++i)
    for (int j = 1; j <= m.get_cols(); ++j) fprintf(R, " %.17g", m.get_elem(i, j));
}
static vector<int> ints(VfLine &l) {
  vector<int> v;
  int n = l.n();
  for (int i = 0; i < n; ++i) v.push_back(l.n());
  return v;
}
static Matrix *m(int k) { return M.at(k).get(); }
static TransferComplex *t(int k) {
  if (!T.count(k) || !T[k]) throw std::logic_error("driver: no TransferComplex");
  return T[k].get();
}

static void op(const std::string &o, VfLine &l) {
  if (o == "mk") {
    int k = l.n(), r = l.n(), c = l.n();
    M[k].reset(new Matrix(r, c));
    for (int i = 1; i <= r; ++i)
      for (int j = 1; j <= c; ++j) m(k)->set_elem(l.d(), i, j);
  } else if (o == "mk0") {
    M[l.n()].reset(new Matrix(0));
  } else if (o == "uc2" || o == "us2") {
    int k = l.n(), j = l.n();
    auto a = ints(l), b = ints(l), f = ints(l);
    M[k].reset(o == "uc2" ? unscramble_Coef(a, b, f, m(j)) : unscramble_S(a, b, f, m(j)));
  } else if (o == "uc1" || o == "us1") {
    int k = l.n(), j = l.n();
    auto a = ints(l), f = ints(l);
    M[k].reset(o == "uc1" ? unscramble_Coef(a, f, m(j)) : unscramble_S(a, f, m(j)));
  } else if (o == "dump") {
    dump(*m(l.n()));
  } else if (o == "rank") {
    int a = l.n(), b = l.n();
    auto r = findRank(*m(a), *m(b));
    fprintf(R, "r %zu", r.size());
    for (auto &x : r) fprintf(R, " %d %.17g %s", x.first, x.second.first, x.second.second.c_str());
  } else if (o == "calc") {
    int c1 = l.n(), c2 = l.n(), p = l.n(), s = l.n(), e = l.n(), cp = l.n();
    fprintf(R, "e %.17g", calculate_transfer_integral(*m(c1), *m(c2), *m(p), *m(s), *m(e), cp != 0));
  } else if (o == "tc") {  // id c1 c2 p mo1 homo1 mo2 homo2 s e cp
    int k = l.n(), c1 = l.n(), c2 = l.n(), p = l.n();
    pair<int, int> a, b;
    a.first = l.n();
    a.second = l.n();
    b.first = l.n();
    b.second = l.n();
    int s = l.n(), e = l.n(), cp = l.n();
    std::unique_ptr<TransferComplex> x(new TransferComplex(m(c1), m(c2), m(p), a, b, m(s), m(e), cp != 0));
    T[k] = std::move(x);
  } else if (o == "uns") {  // id xyz1 xyz2 xyzP basisP basis2
    int k = l.n(), a = l.n(), b = l.n(), p = l.n();
    auto fp = ints(l), f2 = ints(l);
    t(k)->unscramble(*m(a), *m(b), *m(p), fp, f2);
  } else if (o == "J") {
    int k = l.n();
    std::map<std::string, std::string> ty;
    std::map<std::string, int> nu;
    ty["mon1"] = l.s();
    nu["mon1"] = l.n();
    ty["mon2"] = l.s();
    nu["mon2"] = l.n();
    fprintf(R, "e %.17g", t(k)->calcJ(ty, nu));
  } else {
    throw std::logic_error("driver: unknown operation " + o);
  }
}

int vf_case(const std::string &body, FILE *res) {
  R = res;
  T.clear();
  M.clear();
  for (auto &l : vf_lines(body)) {
    std::string o = l.raw();
    try {
      op(o, l);
      fputs(" ok\n", R);
    } catch (const std::exception &e) {
      fputs(" X ", R);
      vf_hex(R, e.what());
      fputc('\n', R);
    }
    fflush(R);
  }
  return 0;
}

// Interprets sequences of Matrix operations; every answer is one line of the result.
#include "server.hpp"
#include "matrix.hpp"
#include <map>
#include <memory>
using namespace catnip;
using std::vector;

static std::map<int, std::unique_ptr<Matrix>> M;
static FILE *R;

static void put(double v) { fprintf(R, " %.17g", v); }
static void dump(const char *tag, Matrix &m) {
  fprintf(R, "%s %d %d %d %d", tag, m.get_rows(), m.get_cols(), m.get_shel(), m.total_elem());
  for (int i = 1; i <= m.get_rows(); ++i)
    for (int j = 1; j <= m.get_cols(); ++j)
      for (int k = 1; k <= m.get_shel(); ++k) put(m.get_elem(i, j, k));
  fputc('\n', R);
}
static vector<double> vec(VfLine &l) {
  vector<double> v;
  int n = l.n();
  for (int i = 0; i < n; ++i) v.push_back(l.d());
  return v;
}
static void putvec(const vector<double> &v) {
  fprintf(R, "v %zu", v.size());
  for (double x : v) put(x);
  fputc('\n', R);
}
static void put1(double v) {
  fprintf(R, "e");
  put(v);
  fputc('\n', R);
}
static Matrix &m(int k) { return *M.at(k); }
static void keep(int k, const Matrix &x) { M[k].reset(new Matrix(x)); }

static void op(const std::string &o, VfLine &l) {
  if (o == "mk") {  // k r c s values: the constructor with three sizes
    int k = l.n(), r = l.n(), c = l.n(), s = l.n();
    M[k].reset(new Matrix(r, c, s));
    for (int i = 1; i <= r; ++i)
      for (int j = 1; j <= c; ++j)
        for (int q = 1; q <= s; ++q)
          if (l.more()) m(k).set_elem(l.d(), i, j, q);
  } else if (o == "mk2") {
    int k = l.n(), r = l.n(), c = l.n();
    M[k].reset(new Matrix(r, c));
  } else if (o == "mk1") {
    int k = l.n(), r = l.n();
    M[k].reset(new Matrix(r));
  } else if (o == "mk0") {
    M[l.n()].reset(new Matrix());
  } else if (o == "vd") {
    int k = l.n();
    M[k].reset(new Matrix(vec(l)));
  } else if (o == "vi") {
    int k = l.n();
    vector<int> v;
    for (double x : vec(l)) v.push_back((int)x);
    M[k].reset(new Matrix(v));
  } else if (o == "vv") {
    int k = l.n(), r = l.n();
    vector<vector<double>> vv;
    for (int i = 0; i < r; ++i) vv.push_back(vec(l));
    M[k].reset(new Matrix(vv));
  } else if (o == "set1") {
    int k = l.n();
    m(k).set_elem(l.d());
  } else if (o == "set2") {
    int k = l.n();
    double v = l.d();
    m(k).set_elem(v, l.n());
  } else if (o == "set3") {
    int k = l.n();
    double v = l.d();
    int r = l.n(), c = l.n();
    m(k).set_elem(v, r, c);
  } else if (o == "set4") {
    int k = l.n();
    double v = l.d();
    int r = l.n(), c = l.n(), s = l.n();
    m(k).set_elem(v, r, c, s);
  } else if (o == "row") {
    int k = l.n(), r = l.n();
    m(k).set_row(vec(l), r);
  } else if (o == "col") {
    int k = l.n(), c = l.n();
    m(k).set_col(vec(l), c);
  } else if (o == "resize") {
    int k = l.n(), r = l.n(), c = l.n();
    m(k).resize(r, c);
  } else if (o == "srows") {
    int k = l.n();
    m(k).set_rows(l.n());
  } else if (o == "scols") {
    int k = l.n();
    m(k).set_cols(l.n());
  } else if (o == "sshel") {
    int k = l.n();
    m(k).set_shel(l.n());
  } else if (o == "swr" || o == "swc" || o == "mvr" || o == "mvc") {
    int k = l.n(), a = l.n(), b = l.n();
    if (o == "swr") m(k).swap_row(a, b);
    if (o == "swc") m(k).swap_col(a, b);
    if (o == "mvr") m(k).move_row(a, b);
    if (o == "mvc") m(k).move_col(a, b);
  } else if (o == "cp") {
    int k = l.n(), j = l.n();
    M[k] = std::unique_ptr<Matrix>(new Matrix(m(j)));
  } else if (o == "as") {
    int k = l.n(), j = l.n();
    m(k) = m(j);
  } else if (o == "copyf") {
    int k = l.n(), j = l.n();
    keep(k, Matrix_copy(m(j)));
  } else if (o == "inv") {
    int k = l.n(), j = l.n();
    keep(k, m(j).invert());
  } else if (o == "diag") {
    int k = l.n(), j = l.n();
    keep(k, Matrix_diag(m(j)));
  } else if (o == "mul") {
    int k = l.n(), a = l.n(), b = l.n();
    Matrix &p = m(a) * m(b);
    if (m(a).total_elem() + m(b).total_elem() < 400) {
      // the product is not touched by a second one, here that of the transposes
      Matrix &q = m(b).invert() * m(a).invert();
      if (&p == &q) throw std::logic_error("two products are one object");
    }
    keep(k, p);
  } else if (o == "catr") {
    int k = l.n(), a = l.n(), b = l.n();
    keep(k, Matrix_concatenate_rows(m(a), m(b)));
  } else if (o == "catc") {
    int k = l.n(), a = l.n(), b = l.n();
    keep(k, Matrix_concatenate_cols(m(a), m(b)));
  } else if (o == "getR") {
    int k = l.n(), j = l.n();
    keep(k, m(j).getRow(l.n()));
  } else if (o == "getC") {
    int k = l.n(), j = l.n();
    keep(k, m(j).getCol(l.n()));
  } else if (o == "matchr" || o == "matchc") {
    int a = l.n(), b = l.n(), sf = l.n();
    vector<int> v = o == "matchr" ? m(a).matchRow(m(b), sf) : m(a).matchCol(m(b), sf);
    fprintf(R, "i %zu", v.size());
    for (int x : v) fprintf(R, " %d", x);
    fputc('\n', R);
  } else if (o == "g1") {
    put1(m(l.n()).get_elem());
  } else if (o == "g2") {
    int k = l.n();
    put1(m(k).get_elem(l.n()));
  } else if (o == "g3") {
    int k = l.n(), r = l.n(), c = l.n();
    put1(m(k).get_elem(r, c));
  } else if (o == "g4") {
    int k = l.n(), r = l.n(), c = l.n(), s = l.n();
    put1(m(k).get_elem(r, c, s));
  } else if (o == "gp") {
    int k = l.n(), r = l.n(), c = l.n();
    put1(*m(k).get_elem_ptr(r, c));
  } else if (o == "grow") {
    int k = l.n();
    putvec(m(k).get_row(l.n()));
  } else if (o == "gcol") {
    int k = l.n();
    putvec(m(k).get_col(l.n()));
  } else if (o == "print") {
    std::ostringstream os;
    os << m(l.n());
    fputs("p ", R);
    vf_hex(R, os.str());
    fputc('\n', R);
  } else if (o == "dump") {
    dump("M", m(l.n()));
  } else if (o == "all") {
    for (auto &x : M) dump("M", *x.second);
  } else {
    throw std::logic_error("driver: unknown operation " + o);
  }
}

int vf_case(const std::string &body, FILE *res) {
  R = res;
  for (auto &l : vf_lines(body)) {
    std::string o = l.raw();
    try {
      op(o, l);
      fputs("ok\n", R);
    } catch (const std::exception &e) {
      fputs("X ", R);
      vf_hex(R, e.what());
      fputc('\n', R);
    }
    fflush(R);
  }
  M.clear();
  return 0;
}

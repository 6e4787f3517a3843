// Parameters: sequences of set and get.
#include "server.hpp"
#include "parameters.hpp"
#include <memory>
#include <vector>
using namespace catnip;
int vf_case(const std::string &body, FILE *R) {
  std::vector<std::unique_ptr<Parameters>> P;
  for (auto &l : vf_lines(body)) {
    std::string o = l.raw();
    if (o == "new") {
      P.emplace_back(new Parameters());
      continue;
    }
    Parameters &p = *P.at(l.n());
    if (o == "copy") {
      P.emplace_back(new Parameters(p));
      continue;
    }
    if (o == "get") {
      for (auto &s : {p.getLog1(), p.getLog2(), p.getLogP(), p.getPun1(), p.getPun2(), p.getPunP(), p.getSpin1(), p.getSpin2(),
                      p.getSpinP(), p.getOrbType1(), p.getOrbType2(), p.getOrbTypeP()}) {
        vf_hex(R, s);
        fputc(' ', R);
      }
      fprintf(R, "%d %d %d %d %d\n", p.getOrbNum1(), p.getOrbNum2(), p.getOrbNumP(), (int)p.getCounterPoise(), (int)p.getCitation());
      fflush(R);
      continue;
    }
    try {
      if (o == "log1") p.setLog1(l.s());
      else if (o == "log2") p.setLog2(l.s());
      else if (o == "logP") p.setLogP(l.s());
      else if (o == "pun1") p.setPun1(l.s());
      else if (o == "pun2") p.setPun2(l.s());
      else if (o == "punP") p.setPunP(l.s());
      else if (o == "spin1") p.setSpin1(l.s());
      else if (o == "spin2") p.setSpin2(l.s());
      else if (o == "spinP") p.setSpinP(l.s());
      else if (o == "type1") p.setOrbType1(l.s());
      else if (o == "type2") p.setOrbType2(l.s());
      else if (o == "typeP") p.setOrbTypeP(l.s());
      else if (o == "num1") p.setOrbNum1(l.n());
      else if (o == "num2") p.setOrbNum2(l.n());
      else if (o == "numP") p.setOrbNumP(l.n());
      else if (o == "cp") p.setCounterPoise(l.n());
      else if (o == "cite") p.setCitation(l.n());
      else return 97;
      fputs("ok\n", R);
    } catch (const std::exception &e) {
      fputs("X\n", R);
    }
    fflush(R);
  }
  return 0;
}

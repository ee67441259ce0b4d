#pragma once
#include <array>
#include <complex>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
typedef std::pair<double, double> P23Num;
struct P23Case {
  size_t                      n = 0, m0 = 0, N = 0;
  bool                        ccs = false;
  std::vector<std::ptrdiff_t> ptr;
  std::vector<int>            ind;
  std::vector<P23Num>         vals, b;
  std::vector<unsigned char>  params;
  double                      betas[2] = {1e-8, 1e8};
};
typedef std::vector<std::pair<std::string, std::vector<long double>>> P23Obs;
#define P23_CAT2(a, b) a##b
#define P23_CAT(a, b) P23_CAT2(a, b)
#define P23_NAME(cfg) P23_CAT(P23_CAT(p23_run_, cfg), P23_CAT(_, VT))

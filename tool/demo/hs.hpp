// small test problem (HS071) whose parts a demonstration can override
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <string>
#include <vector>
#include "IpIpoptApplication.hpp"
#include "IpIpoptData.hpp"
#include "IpIpoptCalculatedQuantities.hpp"
#include "IpTNLP.hpp"
using namespace Ipopt;

struct HS: public TNLP
{
   std::vector<Number> xl = std::vector<Number>(4, 1.), xu = std::vector<Number>(4, 5.), x0 = { 1, 5, 5, 1 };
   Number gl[2] = { 25, 40 }, gu[2] = { 2e19, 40 };
   // final point
   int nfinal = 0;
   SolverReturn status = UNASSIGNED;
   std::vector<Number> fx, fzl, fzu, fg, fl;
   Number fobj = 0;
   // numbers of calls
   int cf = 0, cgf = 0, cg = 0, cj = 0, ch = 0, ci = 0;

   bool get_nlp_info(Index& n, Index& m, Index& nj, Index& nh, IndexStyleEnum& s) override
   { n = 4; m = 2; nj = 8; nh = 10; s = C_STYLE; return true; }
   bool get_bounds_info(Index, Number* l, Number* u, Index, Number* a, Number* b) override
   { for( int i = 0; i < 4; ++i ) { l[i] = xl[i]; u[i] = xu[i]; } for( int i = 0; i < 2; ++i ) { a[i] = gl[i]; b[i] = gu[i]; } return true; }
   bool get_starting_point(Index, bool, Number* x, bool iz, Number* zl, Number* zu, Index, bool il, Number* lam) override
   {
      for( int i = 0; i < 4; ++i ) { x[i] = x0[i]; if( iz ) { zl[i] = 1; zu[i] = 1; } }
      if( il ) { lam[0] = 0; lam[1] = 0; }
      return true;
   }
   bool eval_f(Index, const Number* x, bool, Number& f) override
   { ++cf; f = x[0] * x[3] * (x[0] + x[1] + x[2]) + x[2]; return true; }
   bool eval_grad_f(Index, const Number* x, bool, Number* g) override
   { ++cgf; g[0] = x[0] * x[3] + x[3] * (x[0] + x[1] + x[2]); g[1] = x[0] * x[3]; g[2] = x[0] * x[3] + 1; g[3] = x[0] * (x[0] + x[1] + x[2]); return true; }
   bool eval_g(Index, const Number* x, bool, Index, Number* g) override
   { ++cg; g[0] = x[0] * x[1] * x[2] * x[3]; g[1] = x[0] * x[0] + x[1] * x[1] + x[2] * x[2] + x[3] * x[3]; return true; }
   bool eval_jac_g(Index, const Number* x, bool, Index, Index, Index* r, Index* c, Number* v) override
   {
      if( v == NULL ) { for( int i = 0; i < 8; ++i ) { r[i] = i / 4; c[i] = i % 4; } return true; }
      ++cj;
      v[0] = x[1] * x[2] * x[3]; v[1] = x[0] * x[2] * x[3]; v[2] = x[0] * x[1] * x[3]; v[3] = x[0] * x[1] * x[2];
      for( int i = 0; i < 4; ++i ) v[4 + i] = 2 * x[i];
      return true;
   }
   bool eval_h(Index, const Number* x, bool, Number s, Index, const Number* l, bool, Index, Index* r, Index* c, Number* v) override
   {
      if( v == NULL ) { int k = 0; for( int i = 0; i < 4; ++i ) for( int j = 0; j <= i; ++j, ++k ) { r[k] = i; c[k] = j; } return true; }
      ++ch;
      v[0] = s * 2 * x[3]; v[1] = s * x[3]; v[2] = 0; v[3] = s * x[3]; v[4] = 0; v[5] = 0;
      v[6] = s * (2 * x[0] + x[1] + x[2]); v[7] = s * x[0]; v[8] = s * x[0]; v[9] = 0;
      v[1] += l[0] * x[2] * x[3]; v[3] += l[0] * x[1] * x[3]; v[4] += l[0] * x[0] * x[3];
      v[6] += l[0] * x[1] * x[2]; v[7] += l[0] * x[0] * x[2]; v[8] += l[0] * x[0] * x[1];
      v[0] += l[1] * 2; v[2] += l[1] * 2; v[5] += l[1] * 2; v[9] += l[1] * 2;
      return true;
   }
   void finalize_solution(SolverReturn st, Index n, const Number* x, const Number* zl, const Number* zu, Index m, const Number* g, const Number* l, Number f,
      const IpoptData*, IpoptCalculatedQuantities*) override
   {
      ++nfinal; status = st; fx.assign(x, x + n); fzl.assign(zl, zl + n); fzu.assign(zu, zu + n); fg.assign(g, g + m); fl.assign(l, l + m); fobj = f;
   }
};

inline SmartPtr<IpoptApplication> newapp()
{
   SmartPtr<IpoptApplication> app = IpoptApplicationFactory();
   app->Options()->SetIntegerValue("print_level", 0);
   app->Options()->SetStringValue("sb", "yes");
   app->Options()->SetStringValue("option_file_name", "");
   app->Options()->SetStringValue("linear_solver", "mumps");
   return app;
}
inline int fail(const std::string& s) { printf("FAIL: %s\n", s.c_str()); return 1; }

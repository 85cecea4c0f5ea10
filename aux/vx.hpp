// Shared helpers of the C entry points that drive the C++ classes for the Python monitors.
#ifndef VX_HPP
#define VX_HPP
#include <cstring>
#include <string>
#include <vector>
#include <limits>
#include <random.hpp>
#include <proposals.hpp>
#include <samplers.hpp>
#include <steps.hpp>
#include <parameters.hpp>
#include <carpack.hpp>

static char vx_err[512];
extern "C" const char* vx_error() { return vx_err; }

#define VX_TRY try {
#define VX_CATCH } catch (const std::exception& e) { std::strncpy(vx_err, e.what(), 511); return -1; } \
                 catch (...) { std::strcpy(vx_err, "unknown exception"); return -1; }

static inline arma::vec vx_vec(const double* x, int n) { arma::vec v(n); for (int i=0;i<n;i++) v(i)=x[i]; return v; }
static inline arma::mat vx_mat(const double* x, int n) { arma::mat m(n,n); for (int i=0;i<n;i++) for (int j=0;j<n;j++) m(i,j)=x[i*n+j]; return m; }
static inline double* vx_put(double* o, const arma::vec& v) { for (unsigned i=0;i<v.n_elem;i++) *o++=v(i); return o; }
static inline std::vector<double> vx_std(const double* x, int n) { return std::vector<double>(x, x+n); }
#endif

// Temperature of the object the untraced sampler returns, next to its draws.
#include "vx.hpp"
std::shared_ptr<CARp> RunCarmaSampler(int, int, std::vector<double>, std::vector<double>, std::vector<double>, int, int, int, bool, int, const std::vector<double>&);
extern "C" int vx_run_temp(int nsample, int burnin, int n, const double* t, const double* y, const double* e, int p, int q, int nwalk, int z, double* temp, double* value, double* logdens) {
    VX_TRY
    std::shared_ptr<CARp> r = RunCarmaSampler(nsample, burnin, vx_std(t,n), vx_std(y,n), vx_std(e,n), p, q, nwalk, z, 1, std::vector<double>());
    *temp = r->GetTemperature(); arma::vec v = r->Value(); vx_put(value, v); *logdens = r->GetLogDensity();
    return v.n_elem;
    VX_CATCH
}

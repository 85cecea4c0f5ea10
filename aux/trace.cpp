// Event log of a traced sampler run. Every event is a run of doubles:
//   0 (Metropolis)  : 0, chain, temperature, dim, nunit, unit[nunit], old[dim], oldlog, new[dim], newlog, ratio, hascov, cov[dim*dim]
//   1 (exchange)    : 1, chain, nchains, dim, per chain: id, temp, old[dim], oldlog, new[dim], newlog ; ratio
//   2 (record)      : 2, ntracked, per tracked: id, dim, value[dim], log
// "chain"/"id" number the parameter objects in order of first appearance.
#include "vx.hpp"
#include "trace_log.hpp"
static std::vector<double> vlog; static std::map<const void*,int> ids; static std::vector<double> unit;
static std::vector<double> oldv; static double oldl; static std::vector<double> oldall;
static size_t vlimit = 0; static bool covon = true;
static int idof(const void* p) { std::map<const void*,int>::iterator it = ids.find(p); if (it != ids.end()) return it->second; int n = ids.size(); ids[p] = n; return n; }
static void put(const arma::vec& v) { for (unsigned i=0;i<v.n_elem;i++) vlog.push_back(v(i)); }
void vx_trace_draw(double x) { unit.push_back(x); }
void vx_trace_before(int type, Parameter<arma::vec>* par, std::vector<Parameter<arma::vec>*>* all) {
    if (type == 0) { unit.clear(); arma::vec v = par->Value(); oldv.assign(v.begin(), v.end()); oldl = par->GetLogDensity(); }
    else { oldall.clear(); for (size_t i=0;i<all->size();i++) { arma::vec v = (*all)[i]->Value(); oldall.insert(oldall.end(), v.begin(), v.end()); oldall.push_back((*all)[i]->GetLogDensity()); } }
}
void vx_trace_after(int type, Parameter<arma::vec>* par, std::vector<Parameter<arma::vec>*>* all, double ratio, arma::mat cov) {
    if (vlog.size() > vlimit) return;
    int dim = par->Value().n_elem;
    vlog.push_back(type); vlog.push_back(idof(par));
    if (type == 0) {
        vlog.push_back(par->GetTemperature()); vlog.push_back(dim);
        vlog.push_back(unit.size()); vlog.insert(vlog.end(), unit.begin(), unit.end());
        vlog.insert(vlog.end(), oldv.begin(), oldv.end()); vlog.push_back(oldl);
        put(par->Value()); vlog.push_back(par->GetLogDensity()); vlog.push_back(ratio);
        vlog.push_back(1); for (unsigned i=0;i<cov.n_rows;i++) for (unsigned j=0;j<cov.n_cols;j++) vlog.push_back(cov(i,j));
    } else {
        vlog.push_back(all->size()); vlog.push_back(dim);
        for (size_t i=0;i<all->size();i++) {
            vlog.push_back(idof((*all)[i])); vlog.push_back((*all)[i]->GetTemperature());
            vlog.insert(vlog.end(), oldall.begin()+i*(dim+1), oldall.begin()+(i+1)*(dim+1));
            put((*all)[i]->Value()); vlog.push_back((*all)[i]->GetLogDensity());
        }
        vlog.push_back(ratio);
    }
}
void vx_trace_save(std::map<std::string, BaseParameter*>& tracked, std::set<std::string>& names) {
    if (vlog.size() > vlimit) return;
    vlog.push_back(2); vlog.push_back(names.size());
    for (std::set<std::string>::iterator it=names.begin(); it!=names.end(); ++it) {
        Parameter<arma::vec>* p = static_cast<Parameter<arma::vec>*>(tracked[*it]);
        arma::vec v = p->Value(); vlog.push_back(idof(p)); vlog.push_back(v.n_elem); put(v); vlog.push_back(p->GetLogDensity());
    }
}
std::shared_ptr<CAR1> VxTracedRunCar1Sampler(int, int, std::vector<double>, std::vector<double>, std::vector<double>, int, const std::vector<double>&);
std::shared_ptr<CARp> VxTracedRunCarmaSampler(int, int, std::vector<double>, std::vector<double>, std::vector<double>, int, int, int, bool, int, const std::vector<double>&);
static std::vector<double> rsamples, rlogs; static double rtemp;
extern "C" {
// p==1 runs the CAR(1) sampler
int vx_traced_run(int nsample, int burnin, int n, const double* t, const double* y, const double* e, int p, int q, int nwalk, int z,
                  int thin, int ninit, const double* init, long limit) {
    VX_TRY
    vlog.clear(); ids.clear(); unit.clear(); rsamples.clear(); rlogs.clear(); vlimit = limit;
    std::vector<double> I = vx_std(init, ninit);
    std::vector<std::vector<double> > S;
    if (p == 1) { std::shared_ptr<CAR1> r = VxTracedRunCar1Sampler(nsample, burnin, vx_std(t,n), vx_std(y,n), vx_std(e,n), thin, I);
        rlogs = r->GetLogLikes(); rtemp = r->GetTemperature(); if (!rlogs.empty()) S = r->getSamples(); }
    else { std::shared_ptr<CARp> r = VxTracedRunCarmaSampler(nsample, burnin, vx_std(t,n), vx_std(y,n), vx_std(e,n), p, q, nwalk, z, thin, I);
        rlogs = r->GetLogLikes(); rtemp = r->GetTemperature(); if (!rlogs.empty()) S = r->getSamples(); }
    for (size_t i=0;i<S.size();i++) rsamples.insert(rsamples.end(), S[i].begin(), S[i].end());
    return 0;
    VX_CATCH
}
long vx_trace_size() { return vlog.size(); }
const double* vx_trace_data() { return vlog.data(); }
long vx_trace_nsamples() { return rlogs.size(); }
long vx_trace_samplesize() { return rsamples.size(); }
const double* vx_trace_samples() { return rsamples.data(); }
const double* vx_trace_logs() { return rlogs.data(); }
double vx_trace_temp() { return rtemp; }
}

#include "vx.hpp"
extern "C" {
// seed everything the code under test draws from
void vx_seed(unsigned long s) { RandGen.SetSeed(s); arma::arma_rng::set_seed((arma::arma_rng::seed_type)(s ^ 0x9e3779b9UL)); }

// ---- random variates -------------------------------------------------------------------------
int vx_rng(int kind, double a, double b, double c, long n, double* out) {
    VX_TRY
    for (long i=0;i<n;i++) {
        double x;
        switch (kind) {
            case 0: x = RandGen.exp(a); break;
            case 1: x = RandGen.normal(a,b); break;
            case 2: x = RandGen.lognormal(a,b); break;
            case 3: x = RandGen.uniform(a,b); break;
            case 4: x = (double)RandGen.uniform((int)a,(int)b); break;
            case 5: x = RandGen.powerlaw(a,b,c); break;
            case 6: x = RandGen.tdist(a,b,c); break;
            case 7: x = RandGen.chisqr((int)a); break;
            case 8: x = RandGen.scaled_inverse_chisqr((int)a,b); break;
            case 9: x = RandGen.gamma(a,b); break;
            case 10: x = RandGen.invgamma(a,b); break;
            default: return -2;
        }
        out[i] = x;
    }
    return 0;
    VX_CATCH
}
int vx_rng_mvn(int d, const double* cov, long n, double* out) {
    VX_TRY
    arma::mat C = vx_mat(cov,d);
    for (long i=0;i<n;i++) out = vx_put(out, RandGen.normal(C));
    return 0;
    VX_CATCH
}
int vx_rng_setseed(unsigned long s) { VX_TRY RandGen.SetSeed(s); return 0; VX_CATCH }
int vx_rng_save(const char* f) { VX_TRY RandGen.SaveSeed(std::string(f)); return 0; VX_CATCH }
int vx_rng_recover(const char* f) { VX_TRY RandGen.RecoverSeed(std::string(f)); return 0; VX_CATCH }
// stand-alone generator object: same stream as the global one
int vx_rng_second(int kind, double a, double b, double c, long n, double* out) {
    VX_TRY
    RandomGenerator g;
    for (long i=0;i<n;i++) out[i] = kind==1 ? g.normal(a,b) : kind==3 ? g.uniform(a,b) : kind==9 ? g.gamma(a,b) : g.exp(a);
    return 0;
    VX_CATCH
}
// proposal kernels
int vx_prop(int kind, double a, double b, double start, long n, double* out) {
    VX_TRY
    NormalProposal np(a); StudentProposal sp(a,b); LogNormalProposal lp(a);
    for (long i=0;i<n;i++) out[i] = kind==0 ? np.Draw(start) : kind==1 ? sp.Draw(start) : lp.Draw(start);
    return 0;
    VX_CATCH
}
double vx_prop_logdens(int kind, double a, double b, double newv, double start) {
    NormalProposal np(a); StudentProposal sp(a,b); LogNormalProposal lp(a);
    return kind==0 ? np.LogDensity(newv,start) : kind==1 ? sp.LogDensity(newv,start) : lp.LogDensity(newv,start);
}
int vx_prop_mvn(int d, const double* cov, const double* start, long n, double* out) {
    VX_TRY
    MultiNormalProposal mp(vx_mat(cov,d));
    arma::vec s = vx_vec(start,d);
    for (long i=0;i<n;i++) out = vx_put(out, mp.Draw(s));
    return 0;
    VX_CATCH
}
}

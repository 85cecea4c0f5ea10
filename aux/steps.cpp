// Step classes driven on synthetic targets; one row of numbers per event.
#include "vx.hpp"

// Synthetic target. kind 0: Gaussian exp(-x'Px/2); 1: Gaussian restricted to x0>lo (minus infinity outside);
// 2: NaN where x0<lo; 3: flat in a box |x_i|<=lo; 4: +inf where x0>lo; 5: Student-like heavy tail; 6: exp(-x) on x>0 (1d gamma(a))
struct SynPar : public Parameter<arma::vec> {
    int kind; arma::mat P; double lo; std::vector<arma::vec> qx; std::vector<double> qd; bool rec; arma::vec start;
    SynPar(std::string name, double temp) : Parameter<arma::vec>(true,name,temp), kind(0), lo(0), rec(false) {}
    arma::vec StartingValue() { return start; }
    arma::vec SetStartingValue(arma::vec init) { return init; }
    double Dens(const arma::vec& x) {
        double g = -0.5 * arma::dot(x, P*x);
        const double inf = std::numeric_limits<double>::infinity();
        switch (kind) {
            case 1: return x(0) > lo ? g : -inf;
            case 2: return x(0) < lo ? std::numeric_limits<double>::quiet_NaN() : g;
            case 3: return arma::abs(x).max() <= lo ? 0.0 : -inf;
            case 4: return x(0) > lo ? inf : g;
            case 5: return -0.5 * (x.n_elem + 5.0) * std::log(1.0 - 2.0 * g / 5.0);
            default: return g;
        }
    }
    double LogDensity(arma::vec x) { double d = Dens(x); if (rec) { qx.push_back(x); qd.push_back(d); } return d; }
    arma::vec RandomPosterior() { arma::vec r(value_.n_elem); for (unsigned i=0;i<r.n_elem;i++) r(i) = RandGen.normal(lo,1.0); return r; }
};
struct SynScalar : public Parameter<double> {   // gamma(a) target on x>0 or normal on the line
    int kind; double a; std::vector<double> qx, qd; double start;
    SynScalar(double temp) : Parameter<double>(true,"scalar",temp), kind(0), a(1), start(1) {}
    double StartingValue() { return start; }
    double SetStartingValue(double i) { return i; }
    double LogDensity(double x) {
        double d = kind==0 ? -0.5*x*x/(a*a) : (x>0 ? (a-1)*std::log(x) - x : -std::numeric_limits<double>::infinity());
        qx.push_back(x); qd.push_back(d); return d; }
};
struct RecProp : public Proposal<double> {
    Proposal<double>& in; std::vector<double> draws, starts;
    RecProp(Proposal<double>& p) : in(p) {}
    double Draw(double s) { double x = in.Draw(s); draws.push_back(x); starts.push_back(s); return x; }
    double LogDensity(double n, double s) { return in.LogDensity(n,s); }
};
extern "C" {
// row: old(d) oldlog unit(d) nquery prop(d) proplog new(d) newlog ratio rate cov(d*d)   -> 4d+5+d*d ... see monitors
int vx_ram_trace(int d, const double* cov0, const double* P, int kind, double lo, double temp, double target, int maxiter, int niter,
                 int propkind, double pa, double pb, double gamma, const double* x0, double* out) {
    VX_TRY
    SynPar par("syn",temp); par.kind = kind; par.P = vx_mat(P,d); par.lo = lo;
    NormalProposal np(pa); StudentProposal sp(pa,pb);
    Proposal<double>& base = propkind==0 ? (Proposal<double>&)np : (Proposal<double>&)sp;
    RecProp rp(base);
    AdaptiveMetro st(par, rp, vx_mat(cov0,d), target, maxiter);
    if (gamma > 0) st.SetDecayRate(gamma);
    Parameter<arma::vec>& bp = par;
    bp.Save(vx_vec(x0,d));
    par.rec = true;
    for (int it=0; it<niter; it++) {
        par.qx.clear(); par.qd.clear(); rp.draws.clear(); rp.starts.clear();
        out = vx_put(out, par.Value()); *out++ = par.GetLogDensity();
        st.DoStep();
        for (int i=0;i<d;i++) *out++ = i < (int)rp.draws.size() ? rp.draws[i] - rp.starts[i] : 0.0;
        *out++ = rp.draws.size();
        arma::vec q = par.qx.empty() ? arma::vec(d,arma::fill::zeros) : par.qx[0];
        out = vx_put(out, q); *out++ = par.qd.empty() ? 0.0 : par.qd[0];
        *out++ = par.qx.size();
        out = vx_put(out, par.Value()); *out++ = par.GetLogDensity();
        *out++ = st.GetMetroRatio(); *out++ = st.GetAcceptRate();
        arma::mat C = st.GetCovariance();
        for (int i=0;i<d;i++) for (int j=0;j<d;j++) *out++ = C(i,j);
    }
    return 0;
    VX_CATCH
}
// vector Metropolis step. propkind 0 multinormal, 1 stretch (ensemble of nw walkers, others fixed unless moveall)
// row: old(d) oldlog prop(d) proplog nquery new(d) newlog ratio
int vx_metrop_vec(int d, const double* P, int kind, double lo, double temp, int propkind, const double* cov, double a, int nw,
                  const double* walkers, int niter, int moveall, double* out) {
    VX_TRY
    Ensemble<SynPar> ens;
    for (int w=0; w<nw; w++) { SynPar* s = new SynPar("w"+to_string(w), temp); s->kind = kind; s->P = vx_mat(P,d); s->lo = lo; ens.AddObject(s); }
    for (int w=0; w<nw; w++) { Parameter<arma::vec>& b = ens[w]; b.Save(vx_vec(walkers + w*d, d)); }
    std::vector<Proposal<arma::vec>*> props; std::vector<MetropStep<arma::vec>*> steps;
    std::vector<MultiNormalProposal> mp(nw); std::vector<StretchProposal<SynPar> > sp;
    sp.reserve(nw);
    for (int w=0; w<nw; w++) {
        if (propkind==0) { mp[w] = MultiNormalProposal(vx_mat(cov,d)); props.push_back(&mp[w]); }
        else { sp.push_back(StretchProposal<SynPar>(ens, w, a)); props.push_back(&sp[w]); }
    }
    for (int w=0; w<nw; w++) steps.push_back(new MetropStep<arma::vec>(ens[w], *props[w]));
    for (int it=0; it<niter; it++) {
        int w = moveall ? it % nw : 0;
        SynPar& par = ens[w]; par.qx.clear(); par.qd.clear(); par.rec = true;
        out = vx_put(out, par.Value()); *out++ = par.GetLogDensity();
        steps[w]->DoStep();
        par.rec = false;
        arma::vec q = par.qx.empty() ? arma::vec(d,arma::fill::zeros) : par.qx[0];
        out = vx_put(out, q); *out++ = par.qd.empty() ? 0.0 : par.qd[0]; *out++ = par.qx.size();
        out = vx_put(out, par.Value()); *out++ = par.GetLogDensity();
        *out++ = steps[w]->GetMetroRatio();
    }
    for (int w=0; w<nw; w++) delete static_cast<MetropStep<arma::vec>*>(steps[w]);
    return 0;
    VX_CATCH
}
// scalar Metropolis step. row: old oldlog prop proplog nquery new newlog ratio
int vx_metrop_scalar(int kind, double a, double temp, int propkind, double pa, double pb, double x0, int niter, double* out) {
    VX_TRY
    SynScalar par(temp); par.kind = kind; par.a = a;
    NormalProposal np(pa); StudentProposal sp(pa,pb); LogNormalProposal lp(pa);
    Proposal<double>& prop = propkind==0 ? (Proposal<double>&)np : propkind==1 ? (Proposal<double>&)sp : (Proposal<double>&)lp;
    MetropStep<double> st(par, prop);
    Parameter<double>& b = par; b.Save(x0);
    for (int it=0; it<niter; it++) {
        par.qx.clear(); par.qd.clear();
        *out++ = par.Value(); *out++ = par.GetLogDensity();
        st.DoStep();
        *out++ = par.qx.empty() ? 0 : par.qx[0]; *out++ = par.qd.empty() ? 0 : par.qd[0]; *out++ = par.qx.size();
        *out++ = par.Value(); *out++ = par.GetLogDensity(); *out++ = st.GetMetroRatio();
    }
    return 0;
    VX_CATCH
}
int vx_gibbs(int d, double centre, int niter, double* out) {
    VX_TRY
    SynPar par("g",1.0); par.kind = 0; par.P = arma::eye(d,d); par.lo = centre;
    Parameter<arma::vec>& b = par; b.Save(arma::vec(d,arma::fill::zeros));
    GibbsStep<arma::vec> st(par);
    for (int it=0; it<niter; it++) { st.DoStep(); out = vx_put(out, par.Value()); *out++ = par.GetLogDensity(); }
    return 0;
    VX_CATCH
}
// exchange steps on nc chains: states redrawn each round. row per step: index, then before: nc*(x0,log) after: nc*(x0,log) ratio
int vx_exchange(int nc, const double* temps, int niter, const double* logs, double* out) {
    VX_TRY
    Ensemble<SynPar> ens;
    for (int w=0; w<nc; w++) { SynPar* s = new SynPar("c"+to_string(w), temps[w]); s->kind = 0; s->P = arma::eye(1,1); ens.AddObject(s); }
    std::vector<ExchangeStep<arma::vec,SynPar>*> steps;
    for (int w=1; w<nc; w++) steps.push_back(new ExchangeStep<arma::vec,SynPar>(ens[w], w, ens));
    for (int it=0; it<niter; it++) {
        for (int w=0; w<nc; w++) {
            arma::vec v(1); v(0) = logs[it*nc+w]; // value chosen by the caller; log-density -v^2/2 unless overridden
            Parameter<arma::vec>& b = ens[w]; b.Save(v);
        }
        int k = it % (nc-1);
        *out++ = k+1;
        for (int w=0; w<nc; w++) { *out++ = ens[w].Value()(0); *out++ = ens[w].GetLogDensity(); }
        steps[k]->DoStep();
        for (int w=0; w<nc; w++) { *out++ = ens[w].Value()(0); *out++ = ens[w].GetLogDensity(); }
        *out++ = steps[k]->GetMetroRatio();
    }
    for (unsigned k=0;k<steps.size();k++) delete static_cast<ExchangeStep<arma::vec,SynPar>*>(steps[k]);
    return 0;
    VX_CATCH
}
// exchange between two chains with directly set log-posteriors (also non-finite). row: ratio swapped
int vx_exchange_raw(double ti, double tj, int niter, const double* li, const double* lj, double* out) {
    VX_TRY
    Ensemble<SynPar> ens;
    double tt[2] = {tj, ti};
    for (int w=0; w<2; w++) { SynPar* s = new SynPar("c"+to_string(w), tt[w]); s->kind = 0; s->P = arma::eye(1,1); ens.AddObject(s); }
    ExchangeStep<arma::vec,SynPar> st(ens[1], 1, ens);
    for (int it=0; it<niter; it++) {
        arma::vec a(1), b(1); a(0) = 1.0; b(0) = 2.0;
        ens[0].Save(a); ens[0].SetLogDensity(lj[it]); ens[1].Save(b); ens[1].SetLogDensity(li[it]);
        st.DoStep();
        *out++ = st.GetMetroRatio(); *out++ = ens[0].Value()(0); *out++ = ens[0].GetLogDensity();
        *out++ = ens[1].Value()(0); *out++ = ens[1].GetLogDensity();
    }
    return 0;
    VX_CATCH
}
int vx_cholupdate(int d, const double* L, const double* v, int down, double* out) {
    VX_TRY
    arma::mat M = vx_mat(L,d); arma::vec w = vx_vec(v,d);
    CholUpdateR1(M, w, down);
    for (int i=0;i<d;i++) for (int j=0;j<d;j++) *out++ = M(i,j);
    return 0;
    VX_CATCH
}
}
// ---- Sampler bookkeeping -------------------------------------------------------------------------
struct CountPar : public Parameter<arma::vec> {
    long* clock; arma::vec start; std::vector<long>* saves; long nstart, nset; double* bigctr;
    CountPar(bool track, std::string n) : Parameter<arma::vec>(track,n,1.0), nstart(0), nset(0) { value_.zeros(2); }
    arma::vec StartingValue() { nstart++; return start; }
    arma::vec SetStartingValue(arma::vec i) { nset++; return i; }
    double LogDensity(arma::vec x) { return -x(0) - 1000.0*x(1); }
};
struct CountStep : public Step {
    CountPar& par; long* clock; std::vector<long>* order; long id;
    CountStep(CountPar& p, long* c, std::vector<long>* o, long i) : par(p), clock(c), order(o), id(i) {}
    void DoStep() { (*clock)++; order->push_back(id); arma::vec v = par.Value(); v(0) = (double)*clock; v(1) = (double)id;
                    Parameter<arma::vec>& b = par; b.Save(v); }
    std::string ParameterLabel() { return par.Label(); }
    bool ParameterTrack() { return par.Track(); }
    BaseParameter* GetParPointer() { return &par; }
};
extern "C" {
// returns for every tracked parameter its stored draws (x0,x1,log); order receives the sequence of step ids
int vx_sampler(int nsteps, const int* track, int sample_size, int burnin, int thin, int initlen, double* draws, long* order, long* norder, long* info) {
    VX_TRY
    long clock = 0; std::vector<long> seq;
    std::vector<CountPar*> pars;
    {
    Sampler s(sample_size, burnin, thin);
    for (int i=0;i<nsteps;i++) { pars.push_back(new CountPar(track[i], "par"+to_string(i))); pars.back()->start.zeros(2); pars.back()->start(0) = -1-i;
        s.AddStep(new CountStep(*pars.back(), &clock, &seq, i)); }
    arma::vec init(initlen); for (int i=0;i<initlen;i++) init(i) = 7.5+i;
    s.Run(init);
    info[0] = s.NumberOfSteps(); info[1] = s.NumberOfTrackedSteps();
    }
    *norder = seq.size();
    for (size_t i=0;i<seq.size();i++) order[i] = seq[i];
    for (int i=0;i<nsteps;i++) {
        std::vector<arma::vec> smp = pars[i]->GetSamples(); std::vector<double> lp = pars[i]->GetLogLikes();
        info[2+3*i] = smp.size(); info[3+3*i] = pars[i]->nstart; info[4+3*i] = pars[i]->nset;
        for (size_t k=0;k<smp.size();k++) { *draws++ = smp[k](0); *draws++ = smp[k](1); *draws++ = lp[k]; }
    }
    for (size_t i=0;i<pars.size();i++) delete pars[i];
    return 0;
    VX_CATCH
}
}

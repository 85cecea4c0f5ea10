// Objects handed to the containers of the library: every one must be destroyed, completely, with its container.
#include "vx.hpp"

static long vx_alive = 0;
struct Payload {
    std::vector<double> data;
    Payload() : data(100, 1.5) { vx_alive++; }
    Payload(const Payload& o) : data(o.data) { vx_alive++; }
    ~Payload() { vx_alive--; }
};
struct LifePar : public Parameter<arma::vec> {
    Payload load;
    LifePar(bool track, std::string name) : Parameter<arma::vec>(track, name, 1.0) { value_ = arma::zeros<arma::vec>(2); }
    arma::vec StartingValue() { return arma::zeros<arma::vec>(2); }
    arma::vec SetStartingValue(arma::vec init) { return init; }
    double LogDensity(arma::vec x) { return -0.5 * arma::dot(x, x); }
    arma::vec RandomPosterior() { arma::vec r(2); r(0) = RandGen.normal(0.0,1.0); r(1) = RandGen.normal(0.0,1.0); return r; }
};
struct LifeStep : public Step {
    Payload load; LifePar& par; int throw_at, count;
    LifeStep(LifePar& p, int t) : par(p), throw_at(t), count(0) {}
    void DoStep() { if (++count == throw_at) throw std::runtime_error("asked to"); }
    std::string ParameterLabel() { return par.Label(); }
    BaseParameter* GetParPointer() { return &par; }
};
template <class Base> struct Loaded : public Base {
    Payload load;
    using Base::Base;
};
extern "C" int vx_life(int kind, int n, double* out) {
    VX_TRY
    long before = vx_alive;
    std::vector<double> t, y, e;
    for (int i=0; i<6; i++) { t.push_back(i + 0.1 * i * i); y.push_back((i * 7) % 5 - 1.5); e.push_back(0.2); }
    if (kind <= 2) {
        LifePar par(true, "life"), other(false, "other");
        try {
            Sampler s(n, n, 1 + n % 2);
            for (int i=0; i<n; i++) s.AddStep(new LifeStep(i % 2 ? other : par, kind == 1 ? n : -1));
            if (kind > 0) s.Run(arma::zeros<arma::vec>(kind == 2 ? 2 : 0));
        } catch (const std::runtime_error&) {}
    } else if (kind == 3) {
        Ensemble<CARp> ens;
        for (int i=0; i<n; i++) {
            if (i % 3 == 0) ens.AddObject(new Loaded<CARp>(true, "a", t, y, e, 2));
            else if (i % 3 == 1) ens.AddObject(new Loaded<CARMA>(true, "b", t, y, e, 3, 1));
            else ens.AddObject(new Loaded<ZCAR>(true, "c", t, y, e, 3));
        }
    } else if (kind == 4) {
        Ensemble<Parameter<arma::vec> > ens;
        for (int i=0; i<n; i++) ens.AddObject(new LifePar(true, "p" + to_string(i)));
    } else if (kind == 5) {
        LifePar par(true, "life");
        Ensemble<LifePar> ens;
        ens.AddObject(new LifePar(false, "x")); ens.AddObject(new LifePar(false, "y"));
        NormalProposal np(1.0); StudentProposal sp(8.0, 1.0);
        MultiNormalProposal mp(arma::eye(2,2)); StretchProposal<LifePar> st(ens, 0, 2.0);
        Sampler s(n, n, 1);
        s.AddStep(new AdaptiveMetro(par, sp, arma::eye(2,2), 0.3, n));
        s.AddStep(new GibbsStep<arma::vec>(par));
        s.AddStep(new MetropStep<arma::vec>(par, mp, 2));
        s.AddStep(new MetropStep<arma::vec>(ens[0], st));
        s.AddStep(new ExchangeStep<arma::vec, LifePar>(ens[1], 1, ens, 2));
        if (n % 2) s.Run(arma::vec());
    } else if (kind == 6) {
        Sampler s(n, n, 1);
        Ensemble<CARp> a; Ensemble<CAR1> b;
        for (int i=0; i<n; i++) b.AddObject(new Loaded<CAR1>(true, "a", t, y, e));
    } else if (kind == 7) {
        std::shared_ptr<CARp> a;
        for (int i=0; i<n; i++) a = std::make_shared<Loaded<CARMA> >(true, "b", t, y, e, 3, 2);
    } else {
        Ensemble<KalmanFilter<arma::cx_vec> > f; Ensemble<KalmanFilter<double> > g;
        for (int i=0; i<n; i++) { f.AddObject(new Loaded<KalmanFilterp>(t, y, e)); g.AddObject(new Loaded<KalmanFilter1>(t, y, e)); }
    }
    out[0] = vx_alive - before;
    return 0;
    VX_CATCH
}

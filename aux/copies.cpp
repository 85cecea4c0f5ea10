// Copies of filters and models, and the arguments of the C++ constructors.
#include "vx.hpp"
template <class K> static double* answers(K& k, const double* ts, int nt, double* out) {
    for (int i=0;i<nt;i++) { std::pair<double,double> r = k.Predict(ts[i]); *out++ = r.first; *out++ = r.second; }
    k.Filter(); out = vx_put(out, k.mean); return vx_put(out, k.var);
}
template <class K> static void disturb(K& k, const double* ts, int nt) {
    arma::vec T = vx_vec(ts,nt), Y = k.GetTimeSeries(), E = k.GetTimeSeriesErr();
    Y *= 3.0; E += 0.7;
    k.SetTimeSeries(Y); k.SetTimeSeriesErr(E); k.SetSigsqr(5.0*k.GetSigsqr());
    k.Filter(); k.Predict(ts[0]); k.Simulate(vx_std(ts,nt));
    k.mean.fill(7.0);
}
extern "C" {
// out: answers before, answers of a copy, answers of the original after the copy was changed; returns the number of changed arguments
int vx_copy_filter(int p, int n, const double* t, const double* y, const double* e, double sigsqr, const double* re, const double* im,
                   int q, const double* ma, int nt, const double* ts, double* out) {
    VX_TRY
    arma::vec T = vx_vec(t,n), Y = vx_vec(y,n), E = vx_vec(e,n), T0 = T, Y0 = Y, E0 = E;
    int changed = 0;
    if (p == 0) {
        KalmanFilter1 a(T,Y,E,sigsqr,re[0]);
        out = answers(a,ts,nt,out);
        KalmanFilter1 b(a);
        out = answers(b,ts,nt,out);
        disturb(b,ts,nt);
        out = answers(a,ts,nt,out);
        KalmanFilter1 c(T,Y,E,1.0,1.0); c = a; disturb(a,ts,nt);
        out = answers(c,ts,nt,out);
    } else {
        arma::cx_vec r(p); for (int i=0;i<p;i++) r(i) = std::complex<double>(re[i],im[i]);
        arma::vec M = vx_vec(ma,q), M0 = M; arma::cx_vec r0 = r;
        KalmanFilterp a(T,Y,E,sigsqr,r,M);
        if (M.n_elem != M0.n_elem || arma::any(M != M0)) changed |= 8;
        if (r.n_elem != r0.n_elem || arma::any(r != r0)) changed |= 16;
        M = M0; M.resize(p);
        out = answers(a,ts,nt,out);
        KalmanFilterp b(a);
        out = answers(b,ts,nt,out);
        disturb(b,ts,nt);
        out = answers(a,ts,nt,out);
        KalmanFilterp c(T,Y,E,1.0,r,M); c = a; disturb(a,ts,nt);
        out = answers(c,ts,nt,out);
    }
    if (T.n_elem != T0.n_elem || arma::any(T != T0)) changed |= 1;
    if (Y.n_elem != Y0.n_elem || arma::any(Y != Y0)) changed |= 2;
    if (E.n_elem != E0.n_elem || arma::any(E != E0)) changed |= 4;
    return changed;
    VX_CATCH
}
}
template <class M> static void model_copy(M& a, M& a2, const arma::vec& x1, const arma::vec& x2, double*& out) {
    arma::vec w = x1; a.LogDensity(w); a.Save(w);
    *out++ = a.LogDensity(x1); *out++ = a.LogDensity(x2); *out++ = a.LogPrior(x1); *out++ = a.GetLogDensity(); out = vx_put(out, a.Value());
    M b(a);
    *out++ = b.LogDensity(x1); *out++ = b.LogDensity(x2); *out++ = b.LogPrior(x1); *out++ = b.GetLogDensity(); out = vx_put(out, b.Value());
    b.SetMLE(true); b.SetPrior(1e-3); b.LogDensity(x2);
    arma::vec z = x2; b.Save(z); b.SetSampleSize(2); b.AddToSample(0); b.StartingValue(); b.SetMLE(false);
    *out++ = a.LogDensity(x1); *out++ = a.LogDensity(x2); *out++ = a.LogPrior(x1); *out++ = a.GetLogDensity(); out = vx_put(out, a.Value());
    *out++ = a.GetTemperature(); *out++ = (double)a.GetSamples().size(); *out++ = (double)a2.GetSamples().size();
}
extern "C" {
int vx_copy_model(int kind, int n, const double* t, const double* y, const double* e, int p, int q, int d, const double* th1, const double* th2, double* out) {
    VX_TRY
    std::vector<double> T = vx_std(t,n), Y = vx_std(y,n), E = vx_std(e,n);
    arma::vec x1 = vx_vec(th1,d), x2 = vx_vec(th2,d);
    if (kind==0) { CAR1 a(true,"m",T,Y,E), b(true,"m",T,Y,E); model_copy(a,b,x1,x2,out); }
    else if (kind==1) { CARp a(true,"m",T,Y,E,p), b(true,"m",T,Y,E,p); model_copy(a,b,x1,x2,out); }
    else { CARMA a(true,"m",T,Y,E,p,q), b(true,"m",T,Y,E,p,q); model_copy(a,b,x1,x2,out); }
    return 0;
    VX_CATCH
}
}

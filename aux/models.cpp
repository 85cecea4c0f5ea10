// Handles for the model classes, including the z-transformed ones that Python does not expose.
#include "vx.hpp"
struct VxModel { int kind; CAR1* c1; CARp* cp; };   // kind 0 CAR1, 1 CARp, 2 CARMA, 3 ZCAR, 4 ZCARMA
extern "C" {
void* vx_model_new(int kind, int n, const double* t, const double* y, const double* e, int p, int q, double temp) {
    try {
        VxModel* m = new VxModel(); m->kind = kind; m->c1 = 0; m->cp = 0;
        std::vector<double> T = vx_std(t,n), Y = vx_std(y,n), E = vx_std(e,n);
        if (kind==0) m->c1 = new CAR1(true,"m",T,Y,E,temp);
        else if (kind==1) m->cp = new CARp(true,"m",T,Y,E,p,temp);
        else if (kind==2) m->cp = new CARMA(true,"m",T,Y,E,p,q,temp);
        else if (kind==3) m->cp = new ZCAR(true,"m",T,Y,E,p,temp);
        else m->cp = new ZCARMA(true,"m",T,Y,E,p,temp);
        return m;
    } catch (const std::exception& ex) { std::strncpy(vx_err, ex.what(), 511); return 0; }
}
void vx_model_free(void* h) {
    VxModel* m = (VxModel*)h;
    // delete through the dynamic type, as the class has no polymorphic deletion of its own in the base API
    if (m->c1) delete m->c1;
    if (m->cp) switch (m->kind) {
        case 1: delete m->cp; break;
        case 2: delete static_cast<CARMA*>(m->cp); break;
        case 3: delete static_cast<ZCAR*>(m->cp); break;
        default: delete static_cast<ZCARMA*>(m->cp);
    }
    delete m;
}
#define VX_DISPATCH(expr1, exprp) (m->c1 ? (expr1) : (exprp))
int vx_model_logdens(void* h, const double* th, int n, double* out) {
    VxModel* m = (VxModel*)h; VX_TRY arma::vec v = vx_vec(th,n);
    *out = VX_DISPATCH(m->c1->LogDensity(v), m->cp->LogDensity(v)); return 0; VX_CATCH }
int vx_model_logprior(void* h, const double* th, int n, double* out) {
    VxModel* m = (VxModel*)h; VX_TRY arma::vec v = vx_vec(th,n);
    *out = VX_DISPATCH(m->c1->LogPrior(v), m->cp->LogPrior(v)); return 0; VX_CATCH }
int vx_model_bounds(void* h, const double* th, int n) {
    VxModel* m = (VxModel*)h; VX_TRY arma::vec v = vx_vec(th,n);
    return VX_DISPATCH(m->c1->CheckPriorBounds(v), m->cp->CheckPriorBounds(v)) ? 1 : 0; VX_CATCH }
int vx_model_sigsqr(void* h, const double* th, int n, double* out) {
    VxModel* m = (VxModel*)h; VX_TRY arma::vec v = vx_vec(th,n);
    *out = VX_DISPATCH(m->c1->ExtractSigsqr(v), m->cp->ExtractSigsqr(v)); return 0; VX_CATCH }
int vx_model_ar(void* h, const double* th, int n, double* re, double* im) {
    VxModel* m = (VxModel*)h; VX_TRY arma::vec v = vx_vec(th,n);
    if (m->c1) { re[0] = -m->c1->ExtractAR(v); im[0] = 0; return 1; }
    arma::cx_vec r = m->cp->ExtractAR(v);
    for (unsigned i=0;i<r.n_elem;i++) { re[i]=r(i).real(); im[i]=r(i).imag(); } return r.n_elem; VX_CATCH }
int vx_model_ma(void* h, const double* th, int n, double* out) {
    VxModel* m = (VxModel*)h; VX_TRY arma::vec v = vx_vec(th,n);
    arma::vec r = VX_DISPATCH(m->c1->ExtractMA(v), m->cp->ExtractMA(v)); vx_put(out,r); return r.n_elem; VX_CATCH }
int vx_model_start(void* h, double* out) {
    VxModel* m = (VxModel*)h; VX_TRY arma::vec r = VX_DISPATCH(m->c1->StartingValue(), m->cp->StartingValue());
    vx_put(out,r); return r.n_elem; VX_CATCH }
int vx_model_setstart(void* h, const double* th, int n, double* out) {
    VxModel* m = (VxModel*)h; VX_TRY arma::vec v = vx_vec(th,n);
    arma::vec r = VX_DISPATCH(m->c1->SetStartingValue(v), m->cp->SetStartingValue(v)); vx_put(out,r); return r.n_elem; VX_CATCH }
int vx_model_setmle(void* h, int on) { VxModel* m = (VxModel*)h; VX_TRY if (m->c1) m->c1->SetMLE(on); else m->cp->SetMLE(on); return 0; VX_CATCH }
int vx_model_setprior(void* h, double s) { VxModel* m = (VxModel*)h; VX_TRY if (m->c1) m->c1->SetPrior(s); else m->cp->SetPrior(s); return 0; VX_CATCH }
int vx_model_setkappa(void* h, double lo, double hi) { VxModel* m = (VxModel*)h; VX_TRY if (m->kind!=4) return -2; static_cast<ZCARMA*>(m->cp)->SetKappaBounds(lo,hi); return 0; VX_CATCH }
double vx_model_temp(void* h) { VxModel* m = (VxModel*)h; return VX_DISPATCH(m->c1->GetTemperature(), m->cp->GetTemperature()); }
int vx_model_save(void* h, const double* th, int n, double* value_out, double* logpost_out) {
    // through the base interface, as the steps do
    VxModel* m = (VxModel*)h; VX_TRY
    Parameter<arma::vec>* par = m->c1 ? (Parameter<arma::vec>*)m->c1 : (Parameter<arma::vec>*)m->cp;
    par->Save(vx_vec(th,n)); vx_put(value_out, par->Value()); *logpost_out = par->GetLogDensity(); return 0; VX_CATCH }
int vx_model_kalman(void* h, const double* th, int n, double* mean, double* var) {
    // Kalman output the model reports after saving th
    VxModel* m = (VxModel*)h; VX_TRY
    Parameter<arma::vec>* par = m->c1 ? (Parameter<arma::vec>*)m->c1 : (Parameter<arma::vec>*)m->cp;
    par->Save(vx_vec(th,n));
    vx_put(mean, VX_DISPATCH(m->c1->GetKalmanMean(), m->cp->GetKalmanMean()));
    vx_put(var, VX_DISPATCH(m->c1->GetKalmanVar(), m->cp->GetKalmanVar())); return 0; VX_CATCH }
int vx_model_data(void* h, double* t, double* y, double* e) {
    VxModel* m = (VxModel*)h; VX_TRY
    vx_put(t, VX_DISPATCH(m->c1->GetTime(), m->cp->GetTime())); vx_put(y, VX_DISPATCH(m->c1->GetTimeSeries(), m->cp->GetTimeSeries()));
    vx_put(e, VX_DISPATCH(m->c1->GetTimeSeriesErr(), m->cp->GetTimeSeriesErr())); return 0; VX_CATCH }
int vx_model_variance(void* h, int p, const double* re, const double* im, int q, const double* ma, double sigma, double dt, double* out) {
    VxModel* m = (VxModel*)h; VX_TRY if (!m->cp) return -2;
    arma::cx_vec r(p); for (int i=0;i<p;i++) r(i) = std::complex<double>(re[i],im[i]);
    *out = m->cp->Variance(r, vx_vec(ma,q), sigma, dt); return 0; VX_CATCH }
int vx_polycoefs(int p, const double* re, const double* im, double* out) {
    VX_TRY arma::cx_vec r(p); for (int i=0;i<p;i++) r(i) = std::complex<double>(re[i],im[i]);
    vx_put(out, polycoefs(r)); return 0; VX_CATCH }
int vx_unique_roots(int p, const double* re, const double* im, double tol) {
    VX_TRY arma::cx_vec r(p); for (int i=0;i<p;i++) r(i) = std::complex<double>(re[i],im[i]);
    return unique_roots(r, tol) ? 1 : 0; VX_CATCH }
double vx_logit(double x) { return logit(x); }
double vx_inv_logit(double x) { return inv_logit(x); }
// filters through the armadillo constructors and setters
int vx_kf(int p, int n, const double* t, const double* y, const double* e, double sigsqr, const double* re, const double* im,
          int q, const double* ma, int how, double* mean, double* var, int* nout) {
    VX_TRY
    arma::vec T = vx_vec(t,n), Y = vx_vec(y,n), E = vx_vec(e,n);
    if (p == 0) {
        std::shared_ptr<KalmanFilter1> k;
        if (how == 0) k = std::make_shared<KalmanFilter1>(T,Y,E,sigsqr,re[0]);
        else { k = std::make_shared<KalmanFilter1>(T,Y,E); k->SetSigsqr(sigsqr); k->SetOmega(re[0]); }
        k->Filter(); *nout = k->mean.n_elem; vx_put(mean,k->mean); vx_put(var,k->var);
        return 0;
    }
    arma::cx_vec r(p); for (int i=0;i<p;i++) r(i) = std::complex<double>(re[i],im[i]);
    arma::vec M = vx_vec(ma,q);
    std::shared_ptr<KalmanFilterp> k;
    if (how == 0) k = std::make_shared<KalmanFilterp>(T,Y,E,sigsqr,r,M);
    else { M.resize(p); k = std::make_shared<KalmanFilterp>(T,Y,E); k->SetSigsqr(sigsqr); k->SetOmega(r); k->SetMA(M); }
    k->Filter(); *nout = k->mean.n_elem; vx_put(mean,k->mean); vx_put(var,k->var);
    return 0;
    VX_CATCH
}
}

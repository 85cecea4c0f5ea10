// Forced into a second compilation of the sampler assembly: same source, but the step, proposal and sampler
// classes it instantiates are recording subclasses, and the entry points get other names.
#include <random.hpp>
#include <proposals.hpp>
#include <samplers.hpp>
#include <steps.hpp>
#include <parameters.hpp>
#include "include/carpack.hpp"
#include "trace_log.hpp"

class VxAdaptiveMetro : public AdaptiveMetro {
public:
    VxAdaptiveMetro(Parameter<arma::vec>& par, Proposal<double>& prop, arma::mat cov, double target, int maxiter)
        : AdaptiveMetro(par, prop, cov, target, maxiter), vpar(par) {}
    void DoStep() { vx_trace_before(0, &vpar, 0); AdaptiveMetro::DoStep(); vx_trace_after(0, &vpar, 0, GetMetroRatio(), GetCovariance()); }
private:
    Parameter<arma::vec>& vpar;
};
template <class V, class P>
class VxExchangeStep : public ExchangeStep<V, P> {
public:
    VxExchangeStep(Parameter<V>& par, int index, Ensemble<P>& ens, int rep=-1) : ExchangeStep<V,P>(par, index, ens, rep), vpar(par), vens(ens), vidx(index) {}
    void DoStep() {
        // the partner is whichever other member changes; give the log all members
        std::vector<Parameter<arma::vec>*> all; for (int i=0;i<vens.size();i++) all.push_back(&vens[i]);
        vx_trace_before(1, &vpar, &all); ExchangeStep<V,P>::DoStep();
        vx_trace_after(1, &vpar, &all, this->GetMetroRatio(), arma::mat());
    }
private:
    Parameter<V>& vpar; Ensemble<P>& vens; int vidx;
};
class VxStudentProposal : public StudentProposal {
public:
    VxStudentProposal(double dof, double scale) : StudentProposal(dof, scale) {}
    double Draw(double s) { double x = StudentProposal::Draw(s); vx_trace_draw(x - s); return x; }
};
class VxSampler : public Sampler {
public:
    VxSampler(int n, int b, int t=1) : Sampler(n, b, t) {}
    void SaveValues() { Sampler::SaveValues(); vx_trace_save(p_tracked_parameters_, tracked_names_); }
};
#define AdaptiveMetro VxAdaptiveMetro
#define ExchangeStep VxExchangeStep
#define StudentProposal VxStudentProposal
#define Sampler VxSampler
#define RunCar1Sampler VxTracedRunCar1Sampler
#define RunCarmaSampler VxTracedRunCarmaSampler

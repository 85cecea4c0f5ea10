#ifndef VX_TRACE_LOG
#define VX_TRACE_LOG
#include <map>
#include <set>
#include <vector>
#include <string>
#include <armadillo>
#include <parameters.hpp>
void vx_trace_before(int type, Parameter<arma::vec>* par, std::vector<Parameter<arma::vec>*>* all);
void vx_trace_after(int type, Parameter<arma::vec>* par, std::vector<Parameter<arma::vec>*>* all, double ratio, arma::mat cov);
void vx_trace_draw(double x);
void vx_trace_save(std::map<std::string, BaseParameter*>& tracked, std::set<std::string>& names);
#endif

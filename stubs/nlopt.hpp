// Declarations of the part of NLopt's C++ interface that the library uses, so that
// Optimise.cpp can be parsed where NLopt is not installed.  Never linked.
#ifndef NLOPT_HPP
#define NLOPT_HPP
#include <vector>
#include <stdexcept>
#include <string>
#include <new>
#include <cstdlib>
#include <cstring>
#include <cmath>
namespace nlopt
{
    enum algorithm { GN_DIRECT = 0, GN_DIRECT_L, GN_DIRECT_L_RAND, GN_DIRECT_NOSCAL, GN_DIRECT_L_NOSCAL, GN_DIRECT_L_RAND_NOSCAL,
        GN_ORIG_DIRECT, GN_ORIG_DIRECT_L, GD_STOGO, GD_STOGO_RAND, LD_LBFGS_NOCEDAL, LD_LBFGS, LN_PRAXIS, LD_VAR1, LD_VAR2, LD_TNEWTON,
        LD_TNEWTON_RESTART, LD_TNEWTON_PRECOND, LD_TNEWTON_PRECOND_RESTART, GN_CRS2_LM, GN_MLSL, GD_MLSL, GN_MLSL_LDS, GD_MLSL_LDS, LD_MMA,
        LN_COBYLA, LN_NEWUOA, LN_NEWUOA_BOUND, LN_NELDERMEAD, LN_SBPLX, LN_AUGLAG, LD_AUGLAG, LN_AUGLAG_EQ, LD_AUGLAG_EQ, LN_BOBYQA,
        GN_ISRES, AUGLAG, AUGLAG_EQ, G_MLSL, G_MLSL_LDS, LD_SLSQP, LD_CCSAQ, GN_ESCH, NUM_ALGORITHMS };
    enum result { FAILURE = -1, INVALID_ARGS = -2, OUT_OF_MEMORY = -3, ROUNDOFF_LIMITED = -4, FORCED_STOP = -5,
        SUCCESS = 1, STOPVAL_REACHED = 2, FTOL_REACHED = 3, XTOL_REACHED = 4, MAXEVAL_REACHED = 5, MAXTIME_REACHED = 6 };
    typedef double (*vfunc)(const std::vector<double>& x, std::vector<double>& grad, void* data);
    class roundoff_limited : public std::runtime_error { public: roundoff_limited() : std::runtime_error("nlopt roundoff-limited") {} };
    class forced_stop : public std::runtime_error { public: forced_stop() : std::runtime_error("nlopt forced stop") {} };
    class opt
    {
    public:
        opt(algorithm a, unsigned n);
        void set_lower_bounds(const std::vector<double>& v);
        void set_upper_bounds(const std::vector<double>& v);
        void set_maxeval(int n);
        void set_xtol_rel(double t);
        void set_max_objective(vfunc f, void* d);
        void set_min_objective(vfunc f, void* d);
        void add_equality_constraint(vfunc f, void* d, double tol = 0);
        void add_inequality_constraint(vfunc f, void* d, double tol = 0);
        result optimize(std::vector<double>& x, double& f);
    };
}
#endif

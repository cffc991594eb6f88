// The linear rational fitters (rational_fitter_eigen, rational_fitter_leastsquare) on small data sets.
#include "drv.h"
#include <cmath>
#include <core/args.h>
#include <core/data.h>
#include <core/fitter.h>
#include <core/function.h>
#include <core/plugins_manager.h>
#include <core/rational_function.h>
#include <core/vertical_segment.h>
#include <Eigen/Dense>
using namespace alta; using namespace drv;
using Eigen::MatrixXd; using Eigen::VectorXd;

static const double SCALE = 1e4;
static std::string ints(const std::vector<double>& v, double s) {
    std::string r = "[";
    for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + rnd(v[i], s);
    return r + "]";
}
static void run(const std::vector<words>& cmds) {
    int dx = 1, dy = 1, M = 0;
    parameters par; ptr<data> dat; std::vector<vec> xs, ys;
    ptr<function> fun; std::map<std::string, ptr<fitter> > fitters;
    for (const words& w : cmds) {
        size_t a = 1;
        auto I = [&]() { return atoi(w[a++].c_str()); };
        if (w[0] == "data") {        // kind dx dy M, per sample x y
            std::string k = w[a++]; dx = I(); dy = I(); M = I();
            par = parameters(dx, dy, params::UNKNOWN_INPUT, params::UNKNOWN_OUTPUT);
            int kind = k == "asym" ? 2 : k == "sym" ? 1 : 0, cols = dx + dy * (1 + kind);
            double* c = new double[M * cols + 1];
            xs.clear(); ys.clear();
            for (int i = 0; i < M; ++i) {
                vec x(dx), y(dy);
                for (int j = 0; j < dx; ++j) x[j] = num(w[a++]);
                for (int j = 0; j < dy; ++j) y[j] = num(w[a++]);
                double* r = c + i * cols;
                for (int j = 0; j < dx; ++j) r[j] = x[j];
                for (int j = 0; j < dy; ++j) {
                    r[dx + j] = y[j];
                    if (kind == 2) { r[dx + dy + j] = y[j] - 1; r[dx + 2 * dy + j] = y[j] + 0.5; }
                    if (kind == 1) r[dx + dy + j] = 0.5;
                }
                xs.push_back(x); ys.push_back(y);
            }
            dat = ptr<data>(new vertical_segment(par, M, std::shared_ptr<double>(c, [](double* p) { delete[] p; }), (vertical_segment::ci_kind)kind));
            fun.reset();
            Ev("Data").emit();
        } else if (w[0] == "func") { // name ("core": the library's rational function)
            arguments args = arguments::create_arguments(w[1] == "core" ? "" : "--func " + w[1]);
            fun = ptr<function>(plugins_manager::get_function(args, par));
            if (!fun) { Ev("NoPlugin").emit(); return; }
        } else if (w[0] == "fit") {  // fitter np nq suitable determined
            std::string name = w[a++]; int np = I(), nq = I(), suitable = I(), det = I();
            arguments args = arguments::create_arguments("--np " + std::to_string(np) + " --nq " + std::to_string(nq));
            ptr<fitter>& f = fitters[name];
            if (!f) f = plugins_manager::get_fitter("rational_fitter_" + name);
            if (!f || !fun) { Ev("NoPlugin").emit(); return; }
            f->set_parameters(args);
            bool ok = f->fit_data(dat, fun, args);
            Ev ev("Fit");
            ev.str("f", name).num("np", np).num("nq", nq).flag("suitable", suitable).flag("det", det).flag("ok", ok);
            ptr<rational_function> r = dynamic_pointer_cast<rational_function>(fun);
            std::string vals = "[", size = "["; std::vector<double> own, others, corr;
            if (ok && r) for (int k = 0; k < dy; ++k) {
                rational_function_1d* rk = r->get(k);
                vals += k ? ",[" : "[";
                for (int i = 0; i < M; ++i) vals += (i ? "," : "") + rnd(r->value(xs[i])[k], SCALE);
                vals += "]";
                vec p = rk->getP(), q = rk->getQ();
                size += std::string(k ? "," : "") + "[" + std::to_string(p.size()) + "," + std::to_string(q.size()) + "]";
                if (p.size() != np || q.size() != nq) continue;
                MatrixXd P(M, np), Q(M, nq); VectorXd y(M);
                for (int i = 0; i < M; ++i) {
                    y[i] = ys[i][k];
                    for (int j = 0; j < np; ++j) P(i, j) = rk->p(xs[i], j);
                    for (int j = 0; j < nq; ++j) Q(i, j) = rk->q(xs[i], j);
                }
                VectorXd cp = Eigen::Map<VectorXd>(&p[0], np), cq = Eigen::Map<VectorXd>(&q[0], nq);
                if (name == "eigen") {     // the algebraic residual, by the length of the coefficients, and that of others
                    MatrixXd D(M, np + nq); D << P, MatrixXd(-(y.asDiagonal() * Q));
                    double unit = D.squaredNorm() / (np + nq);
                    VectorXd c(np + nq); c << cp, cq; c.normalize();
                    auto res = [&](const VectorXd& v) { return std::min((D * v).squaredNorm() / v.squaredNorm() / unit, 1000.); };
                    double o = res(c);
                    for (int j = 0; j < np + nq; ++j) {
                        others.push_back(res(VectorXd::Unit(np + nq, j)) - o);
                        for (double e : {.03, -.03, .3, -.3, 3., -3.}) others.push_back(res(c + e * VectorXd::Unit(np + nq, j)) - o);
                    }
                } else {                   // correlation of the residual with each term over the denominator
                    VectorXd d = Q * cq;
                    if (d.cwiseAbs().minCoeff() < 1e-3 * d.cwiseAbs().maxCoeff()) continue;
                    VectorXd e = (P * cp).cwiseQuotient(d) - y;
                    if (!(e.norm() > 1e-6 * (1 + y.norm()))) continue;
                    for (int j = 0; j < np; ++j) { VectorXd t = P.col(j).cwiseQuotient(d); corr.push_back(t.norm() > 0 ? e.dot(t) / e.norm() / t.norm() : 0); }
                }
            }
            // what the function says of its domain is what the data cover
            bool dom = !ok || !r || (r->min().size() == dx && r->max().size() == dx);
            if (ok && r && dom) for (int j = 0; j < dx; ++j) dom = dom && r->min()[j] == dat->min()[j] && r->max()[j] == dat->max()[j];
            ev.raw("vals", vals + "]").raw("size", size + "]").raw("others", ints(others, 1e6)).raw("corr", ints(corr, 1e4)).flag("dom", dom).emit();
        }
    }
}
int main(int argc, char** argv) { return main_loop(argc, argv, run); }

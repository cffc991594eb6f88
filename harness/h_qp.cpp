// Quadratic programs: the solver under its schedules, and the incremental program of the parallel fitter.
#include "drv.h"
#include <list>
#include <algorithm>
#include <QuadProg++.hh>
#include <Eigen/Cholesky>
#include "plugins/rational_fitters/quadratic_program.h"
using namespace drv;
using Eigen::MatrixXd; using Eigen::VectorXd; using Eigen::VectorXi;

static const double SCALE = 1e4;
static std::string point(const VectorXd& x) {
    std::string s = "[";
    for (int i = 0; i < x.size(); ++i) s += (i ? "," : "") + rnd(x[i], SCALE);
    return s + "]";
}
static bool solved(double cost) { return cost < std::numeric_limits<double>::max(); }   // false for NaN as well

static void run(const std::vector<words>& cmds) {
    int n = 0, k = 0, m = 0;
    MatrixXd G, E, A; VectorXd g, e, b; double scale = 1;
    std::shared_ptr<quadratic_program> qp; double lastd = 1;
    for (const words& w : cmds) {
        size_t a = 1;
        auto I = [&]() { return atoi(w[a++].c_str()); };
        if (w[0] == "prog") {        // n k m, G, g, then k equalities and m inequalities, each with its right side last
            n = I(); k = I(); m = I();
            G.resize(n, n); g.resize(n); E.resize(n, k); e.resize(k); A.resize(n, m); b.resize(m);
            for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) G(i, j) = I();
            for (int i = 0; i < n; ++i) g[i] = I();
            for (int i = 0; i < k; ++i) { for (int j = 0; j < n; ++j) E(j, i) = I(); e[i] = I(); }
            for (int i = 0; i < m; ++i) { for (int j = 0; j < n; ++j) A(j, i) = I(); b[i] = I(); }
        } else if (w[0] == "scale") { scale = num(w[a]);   // the same program in another unit
        } else if (w[0] == "solve") {   // mode chunk grow% nguess guess...
            std::string mode = w[1]; a = 2;
            int chunk = I(), grow = I(), ng = I();
            VectorXi act(ng);
            for (int i = 0; i < ng; ++i) act[i] = I() - 1;
            MatrixXd L = G; VectorXd x(n), ci = -scale * b, ce = -scale * e, h = scale * g;
            QuadProgPP::Scheduling s;
            if (mode == "window" ) s.initSlidingWindows(n, m);
            if (mode == "set") s.initWorstSetFirst(n, m);
            if (chunk > 0) s.initial_chunk_size = chunk;
            if (grow > 0) s.grow_factor = grow / 100.;
            Ev ev("Solve"); ev.str("mode", mode);
            double cost;
            if (mode == "plain") cost = QuadProgPP::solve_quadprog(L, h, E, ce, A, ci, x);
            else {
                QuadProgPP::init_qp(L);
                x = -G.llt().solve(h);
                if (k == 0 && mode == "worst" && ng == 0) cost = QuadProgPP::solve_quadprog_with_guess(L, h, E, ce, A, ci, x);
                else cost = QuadProgPP::solve_quadprog_with_guess(L, h, E, ce, A, ci, x, s, &act);
            }
            bool ok = solved(cost);
            std::string as = "[";
            if (ok && mode != "plain" && !(k == 0 && mode == "worst" && ng == 0))
                for (int i = 0; i < act.size(); ++i) as += (i ? "," : "") + std::to_string(act[i] + 1);
            ev.flag("ok", ok).raw("x", ok ? point(x / scale) : "[]").raw("act", as + "]").emit();
        } else if (w[0] == "inc") {     // np nq cond: an incremental program; rows are added by number
            int np = I(), nq = I(), cond = I();
            qp = std::make_shared<quadratic_program>(np, nq, cond != 0);
            Ev("Inc").num("cond", cond).emit();
        } else if (w[0] == "clear") {
            qp->clear_constraints();
            Ev("Clear").num("n", qp->nb_constraints()).emit();
        } else if (w[0] == "add") {
            int i = I();
            qp->add_constraints(A.col(i - 1));
            Ev("Add").num("i", i).num("n", qp->nb_constraints()).emit();
        } else if (w[0] == "isolve") {  // delta
            double delta = I();
            VectorXd x(n); vec p = vec::Zero(I()), q = vec::Zero(n - p.size());
            bool ok = qp->solve_program(x, delta, p, q);
            VectorXd y(n);
            for (int i = 0; i < n; ++i) y[i] = i < p.size() ? p[i] : q[i - p.size()];
            bool sane = delta > 0 && delta < 1e12;
            Ev("ISolve").flag("ok", ok).raw("x", ok ? point(y / delta) : "[]").flag("sane", sane).num("n", qp->nb_constraints()).emit();
        }
    }
}
int main(int argc, char** argv) { return main_loop(argc, argv, run); }

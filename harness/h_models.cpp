// Driver for C25: the reflectance models shipped as plugins.
#include "drv.h"
#include <core/args.h>
#include <core/params.h>
#include <core/function.h>
#include <core/plugins_manager.h>
#include <core/vertical_segment.h>
using namespace alta; using namespace drv;

static const double NONE = 1e9;
static std::string eighths(const vec& v) {     // rounded, cut off at NONE
    return jarr(v, (int)v.size(), [](double x) {
        if (!(x * 8 < NONE)) return std::string(x != x ? "2147483647" : "1000000000");
        if (x * 8 < -NONE) return std::string("-1000000000");
        return std::to_string((long)std::ceil(x * 8 - 1e-9));
    });
}
static std::string exact8(const vec& v) { return jarr(v, (int)v.size(), [](double x) { return sc(x, 8, 1e-12); }); }
static std::string fix(double x) {
    x *= 1e4;
    if (!(std::fabs(x) < NONE)) return x < 0 ? "-1000000000" : "1000000000";
    return std::to_string((long)std::nearbyint(x));
}

static void run(const std::vector<words>& cmds) {
    ptr<nonlinear_function> f;
    int nY = 1; bool oneD = false;
    for (const words& w : cmds) {
        if (w[0] == "new") {            // new model plugin pin ny lobes type kd...
            nY = atoi(w[4].c_str());
            const params::input pin = params::parse_input(w[3]);
            oneD = params::dimension(pin) == 1;
            alta::parameters par(params::dimension(pin), nY, pin, params::RGB_COLOR);
            ptr<function> g(plugins_manager::get_function(w[2], par));
            f = dynamic_pointer_cast<nonlinear_function>(g);
            if (!f) { Ev("NoModel").emit(); return; }
            ptr<vertical_segment> d(new vertical_segment(par, 3));
            for (int k = 0; k < 3; ++k) {
                vec y = vec::Zero(par.dimX() + nY);
                y[par.dimX() - 1] = 1; if (par.dimX() == 6) y[2] = 1;
                for (int i = 0; i < nY; ++i) y[par.dimX() + i] = num(w[7 + i]) / 8 + (k == 1 ? 0 : 0.5 * (k + 1));
                d->vertical_segment::set(k, y);
            }
            arguments a;
            a.update("lobes", w[5]);
            if (w[6] == "retro" && w[1] == "retrobeckmann") a.update("retro", "");
            else if (w[6] != "-") a.update("sg-type", w[6]);
            f->bootstrap(d, a);
            std::string kd = "[";
            for (int i = 0; i < nY; ++i) kd += (i ? "," : "") + w[7 + i];
            Ev("Build").str("m", w[1]).num("ny", nY).num("lobes", atoi(w[5].c_str())).str("type", w[6]).raw("kd", kd + "]").num("nb", f->nbParameters())
                .raw("start", eighths(f->parameters())).raw("lo", eighths(f->getParametersMin())).raw("up", eighths(f->getParametersMax())).emit();
        } else if (w[0] == "set") {
            vec v(w.size() - 1);
            for (int i = 0; i < v.size(); ++i) v[i] = num(w[1 + i]) / 8;
            f->setParameters(v);
            Ev("Set").raw("p", exact8(v)).emit();
        } else if (w[0] == "get") {
            Ev("Get").num("nb", f->nbParameters()).raw("p", exact8(f->parameters())).emit();
        } else {                        // value | jac  x...
            vec x(oneD ? 1 : 6);
            std::string xs;
            if (oneD) { x[0] = num(w[1]) / 8; xs = "[" + w[1] + "]"; }
            else {
                for (int k = 0; k < 2; ++k) for (int i = 0; i < 3; ++i) x[3 * k + i] = num(w[1 + 4 * k + i]) / num(w[4 + 4 * k]);
                xs = "[[" + w[1] + "," + w[2] + "," + w[3] + "," + w[4] + "],[" + w[5] + "," + w[6] + "," + w[7] + "," + w[8] + "]]";
            }
            if (w[0] == "value") {
                vec v = f->value(x), u = (*f)(x);
                bool same = v.size() == u.size();
                for (int i = 0; same && i < v.size(); ++i) same = v[i] == u[i] || (v[i] != v[i] && u[i] != u[i]);
                Ev("Value").raw("x", xs).raw("v", jarr(v, (int)v.size(), fix)).flag("same", same).emit();
            } else {
                vec J = f->parametersJacobian(x), p = f->parameters();
                const int nb = f->nbParameters();
                std::vector<std::vector<double> > D(nY, std::vector<double>(nb));
                for (int j = 0; j < nb; ++j) {
                    const double h = 1e-5;
                    vec q = p;
                    q[j] = p[j] + h; f->setParameters(q); vec a = f->value(x);
                    q[j] = p[j] - h; f->setParameters(q); vec b = f->value(x);
                    for (int i = 0; i < nY; ++i) D[i][j] = (a[i] - b[i]) / (2 * h);
                }
                f->setParameters(p);
                std::string sj = "[", sd = "[";
                for (int i = 0; i < nY; ++i) {
                    std::string rj = "[", rd = "[";
                    for (int j = 0; j < nb; ++j) {
                        const int k = i * nb + j;
                        rj += (j ? "," : "") + (k < J.size() ? fix(J[k]) : std::string("2000000000"));
                        rd += (j ? "," : "") + fix(D[i][j]);
                    }
                    sj += (i ? "," : "") + rj + "]"; sd += (i ? "," : "") + rd + "]";
                }
                Ev("Jac").raw("x", xs).num("n", J.size()).raw("jac", sj + "]").raw("quo", sd + "]").emit();
            }
        }
    }
}
int main(int c, char** v) { return main_loop(c, v, run); }

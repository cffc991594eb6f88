// Driver for C08: sums and products of functions, built from test functions whose
// value is linear in their parameters with small integer coefficients.
#include "drv.h"
#include "tleaf.h"
using namespace alta; using namespace drv;

using tleaf::feature; using tleaf::lin;
using tleaf::leaves; using tleaf::parse;
static std::string ints(const vec& v) { return jarr(v, (int)v.size(), [](double x) { return sc(x, 1); }); }

static void run(const std::vector<words>& cmds) {
    ptr<nonlinear_function> f;
    for (const words& w : cmds) {
        if (w[0] == "tree") {
            size_t k = 1;
            leaves.clear();
            f = parse(w, k);
            const alta::parameters& p = f->parametrization();
            Ev("Build").num("nb", f->nbParameters()).raw("pars", ints(f->parameters())).raw("lo", ints(f->getParametersMin()))
                .raw("up", ints(f->getParametersMax())).str("pin", params::get_name(p.input_parametrization())).num("dx", p.dimX()).num("dy", p.dimY()).emit();
        } else if (w[0] == "set" || w[0] == "boot") {
            vec v(w.size() - 1);
            for (int i = 0; i < v.size(); ++i) v[i] = num(w[1 + i]);
            if (w[0] == "set") f->setParameters(v);
            else {
                std::string o = "[";
                for (int i = 0; i < v.size(); ++i) o += (i ? "," : "") + w[1 + i];
                arguments a; a.update("bootstrap", o + "]");
                f->bootstrap(ptr<data>(), a);
            }
            std::string s = "[";
            for (size_t i = 0; i < leaves.size(); ++i) s += (i ? "," : "") + ints(leaves[i]->p);
            Ev("Set").raw("v", ints(v)).raw("leaves", s + "]").emit();
        } else if (w[0] == "get") {
            Ev("Get").num("nb", f->nbParameters()).raw("pars", ints(f->parameters())).raw("lo", ints(f->getParametersMin())).raw("up", ints(f->getParametersMax())).emit();
        } else {   // value | call | jac   x...
            vec x(w.size() - 1);
            for (int i = 0; i < x.size(); ++i) x[i] = num(w[1 + i]);
            params::input pin = f->parametrization().input_parametrization();
            if (pin != params::UNKNOWN_INPUT) {   // given as angles: express in the function's parametrization
                double c[6] = {sin(x[0])*cos(x[1]), sin(x[0])*sin(x[1]), cos(x[0]), sin(x[2])*cos(x[3]), sin(x[2])*sin(x[3]), cos(x[2])};
                x.resize(params::dimension(pin));
                params::convert(c, params::CARTESIAN, pin, &x[0]);
            }
            std::string xs = "["; bool skip = false;
            for (size_t i = 0; i < leaves.size(); ++i) {
                params::input pl = leaves[i]->parametrization().input_parametrization();
                vec xl(leaves[i]->parametrization().dimX());
                if (pl == pin) xl = x; else params::convert(&x[0], pin, pl, &xl[0]);
                double m, s = feature(xl, &m);
                if (pl != params::UNKNOWN_INPUT && m < 1e-3) skip = true;
                xs += (i ? "," : "") + sc(s, 1);
            }
            xs += "]";
            if (skip) continue;
            if (w[0] == "jac") {
                vec j = f->parametersJacobian(x);
                Ev("Jac").raw("xs", xs).raw("jac", ints(j)).emit();
            } else {
                vec v = w[0] == "call" ? (*f)(x) : f->value(x);
                Ev("Value").raw("xs", xs).raw("val", ints(v)).emit();
            }
        }
    }
}
int main(int argc, char** argv) { return main_loop(argc, argv, run); }

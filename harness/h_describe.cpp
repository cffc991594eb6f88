// Driver for C09: functions built from their description by plugins_manager, out of
// test plugins.
#include "drv.h"
#include "tleaf.h"
#include <core/plugins_manager.h>
#include <core/rational_function.h>
using namespace alta; using namespace drv; using tleaf::lin; using tleaf::feature;

struct desc { std::string kind, pin; int n; std::vector<double> p, lo, up; std::vector<std::vector<double> > a, b; };
static std::map<std::string, desc> reg;      // plugin name -> what it provides
static std::vector<lin*> leaves;             // in order of creation

struct plain : public function {             // a function that is not a nonlinear_function
    plain(const alta::parameters& p) : function(p) {}
    virtual bool load(std::istream&) { return false; }
    virtual vec operator()(const vec& x) const { return value(x); }
    virtual vec value(const vec&) const { return vec::Zero(parametrization().dimY()); }
};

extern "C" void* drv_make(const char* what, const char* path, const void* pp) {
    std::string n = path;
    n = n.substr(n.rfind('/') + 1);
    n = n.substr(3, n.size() - 6);
    const desc& d = reg[n];
    const alta::parameters& pr = *(const alta::parameters*)pp;
    if (d.kind == "null") return 0;
    if (d.kind == "plain") return static_cast<function*>(new plain(pr));
    alta::parameters own = pr;
    if (d.pin != "given") {
        params::input pin = params::parse_input(d.pin);
        own = alta::parameters(params::dimension(pin), pr.dimY(), pin, pr.output_parametrization());
    }
    lin* f = new lin(own, d.n);
    for (int i = 0; i < d.n; ++i) { f->p[i] = d.p[i]; f->lo[i] = d.lo[i]; f->up[i] = d.up[i]; }
    f->a = d.a; f->b = d.b;
    leaves.push_back(f);
    return static_cast<function*>(f);
}

static std::string ints(const vec& v) { return jarr(v, (int)v.size(), [](double x) { return sc(x, 1); }); }

static void run(const std::vector<words>& cmds) {
    ptr<function> whole; nonlinear_function* f = 0;
    reg.clear();
    for (const words& w : cmds) {
        if (w[0] == "plugin") {          // name kind pin n dy p lo up a b
            desc d; size_t k = 2;
            d.kind = w[k++]; d.pin = w[k++]; d.n = atoi(w[k++].c_str());
            int dy = atoi(w[k++].c_str());
            auto N = [&](std::vector<double>& v) { for (int i = 0; i < d.n; ++i) v.push_back(num(w[k++])); };
            N(d.p); N(d.lo); N(d.up); d.a.resize(dy); d.b.resize(dy);
            for (int y = 0; y < dy; ++y) N(d.a[y]);
            for (int y = 0; y < dy; ++y) N(d.b[y]);
            reg[w[1]] = d;
        } else if (w[0] == "describe" || w[0] == "byname") {   // pin dx dy words...
            leaves.clear(); f = 0; whole.reset();
            alta::parameters pr(atoi(w[2].c_str()), atoi(w[3].c_str()), params::parse_input(w[1]), params::INV_STERADIAN);
            std::vector<std::string> ws;
            for (size_t i = 4; i < w.size(); ++i) ws.push_back(unesc(w[i]));
            if (w[0] == "describe") {
                std::vector<char*> av;
                for (auto& s : ws) av.push_back(&s[0]);
                whole.reset(plugins_manager::get_function(arguments((int)av.size(), av.data()), pr));
            } else whole = plugins_manager::get_function(ws[0], pr);
            f = dynamic_cast<nonlinear_function*>(whole.get());
            std::string kind = !whole ? "none" : f ? "nonlinear" : dynamic_cast<rational_function*>(whole.get()) ? "rational" : "plain";
            Ev e(w[0] == "describe" ? "Describe" : "ByName");
            e.raw("ws", jarr(ws, (int)ws.size(), jstr)).str("gpin", w[1]).num("gdx", pr.dimX()).num("gdy", pr.dimY()).str("kind", kind);
            if (whole) {
                const alta::parameters& p = whole->parametrization();
                e.str("pin", params::get_name(p.input_parametrization())).num("dx", p.dimX()).num("dy", p.dimY());
            }
            if (f) e.num("nb", f->nbParameters()).raw("pars", ints(f->parameters())).raw("lo", ints(f->getParametersMin())).raw("up", ints(f->getParametersMax()));
            e.emit();
        } else if (!f) {
            continue;
        } else if (w[0] == "set") {      // seed of the values
            vec v(f->nbParameters());
            unsigned s = atoi(w[1].c_str());
            for (int i = 0; i < v.size(); ++i) { s = s * 1103515245u + 12345u; v[i] = int((s >> 16) % 7) - 3; }
            f->setParameters(v);
            std::string t = "[";
            for (size_t i = 0; i < leaves.size(); ++i) t += (i ? "," : "") + ints(leaves[i]->p);
            Ev("Set").raw("v", ints(v)).raw("leaves", t + "]").emit();
        } else if (w[0] == "get") {
            Ev("Get").num("nb", f->nbParameters()).raw("pars", ints(f->parameters())).raw("lo", ints(f->getParametersMin())).raw("up", ints(f->getParametersMax())).emit();
        } else {   // value | call | jac   angles or coordinates
            vec x(w.size() - 1);
            for (int i = 0; i < x.size(); ++i) x[i] = num(w[1 + i]);
            params::input pin = f->parametrization().input_parametrization();
            double c[6] = {sin(x[0])*cos(x[1]), sin(x[0])*sin(x[1]), cos(x[0]), sin(x[2])*cos(x[3]), sin(x[2])*sin(x[3]), cos(x[2])};
            x.resize(params::dimension(pin));
            params::convert(c, params::CARTESIAN, pin, &x[0]);
            std::string xs = "["; bool skip = false;
            for (size_t i = 0; i < leaves.size(); ++i) {
                params::input pl = leaves[i]->parametrization().input_parametrization();
                vec xl(leaves[i]->parametrization().dimX());
                if (pl == pin) xl = x; else params::convert(&x[0], pin, pl, &xl[0]);
                double m, s = feature(xl, &m);
                if (m < 1e-3) skip = true;
                xs += (i ? "," : "") + sc(s, 1);
            }
            xs += "]";
            if (skip) continue;
            if (w[0] == "jac") Ev("Jac").raw("xs", xs).raw("jac", ints(f->parametersJacobian(x))).emit();
            else Ev("Value").raw("xs", xs).raw("val", ints(w[0] == "call" ? (*f)(x) : f->value(x))).emit();
        }
    }
}
int main(int argc, char** argv) { return main_loop(argc, argv, run); }

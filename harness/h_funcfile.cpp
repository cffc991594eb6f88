// Driver for C10: function files read and written with the shipped plugins.
#include "drv.h"
#include <core/plugins_manager.h>
#include <core/rational_function.h>
using namespace alta; using namespace drv;

static std::string g10(double v) { char b[40]; snprintf(b, 40, "%.10g", v); return jstr(b); }
static std::string e10(double v) { char b[40]; snprintf(b, 40, "%.10e", v); return jstr(b); }
static const double vals[] = {0, 1, 0.5, -0.25, 2, 10, 0.125, 1e-05, 12.375, 0.1, 3.14159, -7.5e-07, 0.3333333333, 1.5, 0.75, 123456.5};

static std::string pars(function* f) {
    if (nonlinear_function* n = dynamic_cast<nonlinear_function*>(f))
        return jarr(n->parameters(), n->nbParameters(), g10);
    rational_function* r = dynamic_cast<rational_function*>(f);
    if (!r) return "[]";
    int dx = r->parametrization().dimX();
    std::string s = "[" + jarr(r->min(), dx, e10) + "," + jarr(r->max(), dx, e10);
    for (int k = 0; k < r->parametrization().dimY(); ++k) {
        vec p = r->get(k)->getP(), q = r->get(k)->getQ();
        s += "," + jarr(p, (int)p.size(), e10) + "," + jarr(q, (int)q.size(), e10);
    }
    return s + "]";
}
static std::vector<std::string> lines_of(const std::string& path) {
    std::ifstream is(path.c_str()); std::stringstream b; b << is.rdbuf();
    std::string all = b.str(), l; std::vector<std::string> r;
    std::istringstream in(all);
    while (std::getline(in, l)) r.push_back(l);
    return r;
}

static void run(const std::vector<words>& cmds) {
    ptr<function> f;
    char name[] = "fXXXXXX";
    std::string path = scratch + "/" + name;
    int fd = mkstemp(&path[0]); close(fd);
    for (const words& w : cmds) {
        if (w[0] == "load" || w[0] == "cut") {       // cut: no line end after the last line
            { std::ofstream o(path.c_str());
              for (size_t i = 1; i < w.size(); ++i) o << unesc(w[i]) << (w[0] == "cut" && i + 1 == w.size() ? "" : "\n"); }
            f.reset(plugins_manager::load_function(path));
            nonlinear_function* n = dynamic_cast<nonlinear_function*>(f.get());
            Ev e("Load");
            std::vector<std::string> ls;
            for (size_t i = 1; i < w.size(); ++i) ls.push_back(unesc(w[i]));
            e.raw("ls", jarr(ls, (int)ls.size(), jstr));
            e.str("kind", !f ? "none" : n ? "nonlinear" : dynamic_cast<rational_function*>(f.get()) ? "rational" : "other");
            if (f) {
                const parameters& p = f->parametrization();
                e.str("pin", params::get_name(p.input_parametrization())).str("pout", params::get_name(p.output_parametrization()));
                e.num("dx", p.dimX()).num("dy", p.dimY()).raw("pars", pars(f.get()));
            }
            e.emit();
        } else if (!f) {
            continue;
        } else if (w[0] == "set") {
            nonlinear_function* n = dynamic_cast<nonlinear_function*>(f.get());
            if (!n) continue;
            vec v(n->nbParameters());
            unsigned s = atoi(w[1].c_str());
            for (int i = 0; i < v.size(); ++i) { s = s * 1103515245u + 12345u; v[i] = vals[(s >> 16) % 16]; }
            n->setParameters(v);
            Ev("Set").raw("v", jarr(v, (int)v.size(), g10)).raw("pars", pars(n)).emit();
        } else if (w[0] == "save") {
            std::vector<std::string> ws;
            for (size_t i = 1; i < w.size(); ++i) ws.push_back(unesc(w[i]));
            std::vector<char*> av;
            for (auto& s : ws) av.push_back(&s[0]);
            f->save(path, arguments((int)av.size(), av.data()));
            auto ls = lines_of(path);
            Ev("Save").raw("ls", jarr(ls, (int)ls.size(), jstr)).emit();
        } else if (w[0] == "same") {     // the function loaded from what was saved, at inputs from a seed
            ptr<function> g(plugins_manager::load_function(path));
            nonlinear_function* n = dynamic_cast<nonlinear_function*>(g.get());
            Ev e("Same");
            e.str("kind", !g ? "none" : n ? "nonlinear" : dynamic_cast<rational_function*>(g.get()) ? "rational" : "other");
            if (g) {
                const parameters& p = g->parametrization();
                e.str("pin", params::get_name(p.input_parametrization())).str("pout", params::get_name(p.output_parametrization()));
                e.num("dx", p.dimX()).num("dy", p.dimY()).raw("pars", pars(g.get()));
                unsigned s = atoi(w[1].c_str());
                auto rnd01 = [&]() { s = s * 1103515245u + 12345u; return ((s >> 8) & 0xffff) / 65536.0; };
                std::string a = "[", b = "[";
                for (int k = 0; k < 4; ++k) {
                    vec x(p.dimX());
                    double t1 = 0.1 + 1.2 * rnd01(), p1 = 6 * rnd01(), t2 = 0.1 + 1.2 * rnd01(), p2 = 6 * rnd01();
                    double c[6] = {sin(t1)*cos(p1), sin(t1)*sin(p1), cos(t1), sin(t2)*cos(p2), sin(t2)*sin(p2), cos(t2)};
                    if (n) params::convert(c, params::CARTESIAN, p.input_parametrization(), &x[0]);
                    else for (int i = 0; i < x.size(); ++i) x[i] = -1 + 2 * rnd01();
                    vec y = f->value(x), z = g->value(x);
                    a += (k ? "," : "") + jarr(y, (int)y.size(), tok);
                    b += (k ? "," : "") + jarr(z, (int)z.size(), tok);
                }
                e.raw("a", a + "]").raw("b", b + "]");
            }
            e.emit();
        }
    }
    unlink(path.c_str());
}
int main(int argc, char** argv) { return main_loop(argc, argv, run); }

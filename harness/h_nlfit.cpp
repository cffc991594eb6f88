// Nonlinear fits (C15): the fitter plugins on test functions and on shipped models.
#include "drv.h"
#include "tleaf.h"
#include <core/args.h>
#include <core/data.h>
#include <core/fitter.h>
#include <core/plugins_manager.h>
#include <core/vertical_segment.h>
using namespace alta; using namespace drv;
using tleaf::lin; using tleaf::leaves;

static ptr<nonlinear_function> f;
static ptr<data> d;
static std::vector<double> cosv;
static long outside, looks;
static void look(const lin* g) {
    ++looks;
    for (int i = 0; i < g->n; ++i) if (!(g->p[i] >= g->lo[i] && g->p[i] <= g->up[i])) { ++outside; return; }
}
static std::string ints(const vec& v) { return jarr(v, (int)v.size(), [](double x) { return sc(x, 1); }); }
static std::string milli(const vec& v) { return jarr(v, (int)v.size(), [](double x) { return rnd(x, 1000); }); }
static std::string flags(const std::vector<bool>& v) { return jarr(v, (int)v.size(), [](bool b) { return std::string(b ? "true" : "false"); }); }
static double sse(bool cosine, bool lg) {
    double e = 0;
    int dx = d->parametrization().dimX(), dy = d->parametrization().dimY();
    for (int s = 0; s < d->size(); ++s) {
        vec r = d->get(s), x(f->parametrization().dimX());
        params::convert(&r[0], d->parametrization().input_parametrization(), f->parametrization().input_parametrization(), &x[0]);
        vec v = f->value(x);
        for (int y = 0; y < dy; ++y) {
            double k = lg ? std::log(1 + r[dx + y]) - std::log(1 + v[y]) : r[dx + y] - (cosine ? cosv[s] : 1) * v[y];
            e += k * k;
        }
    }
    return e;
}
static std::string leafs() {
    std::string s = "[";
    for (size_t i = 0; i < leaves.size(); ++i) s += (i ? "," : "") + jarr(leaves[i]->p, leaves[i]->n, [](double x) { return tok(x); });
    return s + "]";
}
static std::string toks(const vec& v) { return jarr(v, (int)v.size(), [](double x) { return tok(x); }); }
static std::string order(double a, double b) { return a != a || b != b ? "\"nan\"" : a <= b * (1 + 1e-9) + 1e-12 ? "\"le\"" : "\"gt\""; }
static vec mixed(double t, const vec& lo, const vec& up) {
    vec p(lo.size());
    for (int i = 0; i < p.size(); ++i) {
        double a = lo[i] > -2 ? lo[i] : -2, b = up[i] < 30 ? up[i] : 30;
        double u = std::fmod(t * (1 + i * .618034), 1.0);
        p[i] = a + u * (b - a);
    }
    return p;
}

static void run(const std::vector<words>& cmds) {
    std::vector<words> rows;
    params::input pin = params::UNKNOWN_INPUT;
    int dy = 1;
    for (const words& w : cmds) {
        if (w[0] == "tree") {
            size_t k = 1;
            leaves.clear();
            f = tleaf::parse(w, k);
            for (lin* g : leaves) g->looked = look;
        } else if (w[0] == "model") {      // model <options>: a shipped one
            leaves.clear();
            f = dynamic_pointer_cast<nonlinear_function>(ptr<function>(plugins_manager::get_function(
                    arguments::create_arguments(unesc(w[1])), alta::parameters(params::dimension(pin), dy, pin, params::INV_STERADIAN))));
            if (!f) { Ev("NoModel").emit(); return; }
        } else if (w[0] == "data") {      // data <parametrization> <dy>
            pin = params::parse_input(w[1]); dy = atoi(w[2].c_str());
        } else if (w[0] == "row") {       // light, view; outputs
            rows.push_back(w);
        } else if (w[0] == "made") {      // the data: rows as given, or the values of the model at its parameters t, moved by the outputs given
            int dx = params::dimension(pin);
            std::vector<vec> keep; std::string feats = "["; cosv.clear();
            vec p0;
            if (w.size() > 1 && f->nbParameters()) {
                p0 = f->parameters();
                f->setParameters(mixed(num(w[1]), f->getParametersMin(), f->getParametersMax()));
            }
            for (const words& r : rows) {
                double c[6]; for (int k = 0; k < 6; ++k) c[k] = num(r[1 + k]);
                vec v(dx + dy); params::convert(c, params::CARTESIAN, pin, &v[0]);
                double back[6]; params::convert(&v[0], pin, params::CARTESIAN, back);
                std::string ss = "["; bool skip = false;
                for (size_t i = 0; i < leaves.size(); ++i) {
                    params::input pl = leaves[i]->parametrization().input_parametrization();
                    vec xl(leaves[i]->parametrization().dimX());
                    params::convert(&v[0], pin, pl, &xl[0]);
                    double m, s = tleaf::feature(xl, &m);
                    if (!(m > 1e-3)) skip = true;
                    ss += (i ? "," : "") + sc(s, 1);
                }
                for (int y = 0; y < dy; ++y) v[dx + y] = num(r[7 + y]);
                if (w.size() > 1) {
                    vec xf(f->parametrization().dimX());
                    params::convert(&v[0], pin, f->parametrization().input_parametrization(), &xf[0]);
                    vec val = f->value(xf);
                    for (int y = 0; y < dy; ++y) { v[dx + y] += val[y]; if (!(std::fabs(v[dx + y]) < 1e6)) skip = true; }
                }
                if (skip) continue;
                keep.push_back(v); cosv.push_back(back[5]);
                feats += (keep.size() > 1 ? ",{\"s\":" : "{\"s\":") + ss + "],\"c\":" + rnd(back[5], 5) + ",\"d\":" +
                         "[";
                for (int y = 0; y < dy; ++y) feats += (y ? "," : "") + rnd(v[dx + y], 1);
                feats += "]}";
            }
            if (p0.size()) f->setParameters(p0);
            if (keep.empty()) { Ev("NoData").emit(); return; }
            std::ostringstream text;
            text.precision(17);
            text << "#DIM " << dx << " " << dy << "\n#PARAM_IN " << params::get_name(pin) << "\n#PARAM_OUT INV_STERADIAN\n";
            for (const vec& v : keep) { for (int j = 0; j < v.size(); ++j) text << (j ? " " : "") << v[j]; text << "\n"; }
            std::istringstream in(text.str());
            d = plugins_manager::load_data("", in, arguments());
            if (!d || d->size() != (int)keep.size()) { Ev("NoData").emit(); return; }
            vec lo = keep[0].head(dx), up = lo;
            for (size_t k = 0; k < keep.size(); ++k) for (int j = 0; j < dx; ++j) {
                lo[j] = std::min(lo[j], keep[k][j]); up[j] = std::max(up[j], keep[k][j]); }
            Ev("Data").raw("D", feats + "]").raw("min", toks(lo)).raw("max", toks(up)).emit();
        } else if (w[0] == "start") {      // start <t>: shipped models start between their bounds
            if (f->nbParameters()) f->setParameters(mixed(num(w[1]), f->getParametersMin(), f->getParametersMax()));
        } else if (w[0] == "fit") {      // fit <fitter> <options>
            ptr<fitter> ft = plugins_manager::get_fitter("nonlinear_fitter_" + w[1]);
            if (!ft) { Ev("NoFitter").emit(); return; }
            std::string o = unesc(w[2]);
            arguments a = arguments::create_arguments(o);
            bool cosine = o.find("fit-with-cosine") != std::string::npos, lg = o.find("log-fit") != std::string::npos;
            ft->set_parameters(a);
            for (lin* g : leaves) g->looked = 0;
            vec p0 = f->parameters();
            f->bootstrap(d, a);
            vec s = f->parameters();
            int nb = f->nbParameters();
            vec lo = f->getParametersMin(), up = f->getParametersMax();
            double e0 = sse(cosine, lg);
            if (nb) f->setParameters(p0);
            std::string before = leafs();
            outside = looks = 0;
            for (lin* g : leaves) g->looked = look;
            ptr<function> g = f;
            bool ok = ft->fit_data(d, g, a);
            for (lin* l : leaves) l->looked = 0;
            double e1 = sse(cosine, lg);
            vec p = f->parameters();
            std::vector<bool> below, above, sin;
            for (int i = 0; i < nb; ++i) { below.push_back(!(p[i] >= lo[i])); above.push_back(!(p[i] <= up[i])); sin.push_back(s[i] >= lo[i] && s[i] <= up[i]); }
            Ev("Fit").str("fitter", w[1]).flag("limited", o.find("iterations") != std::string::npos).flag("cosine", cosine).flag("log", lg).flag("ok", ok).flag("same", g.get() == f.get())
                .raw("start", milli(nb ? s : vec(0))).raw("sin", flags(sin)).raw("pars", milli(nb ? p : vec(0))).raw("below", flags(below)).raw("above", flags(above))
                .num("out", outside).num("looks", looks).raw("before", before).raw("leaves", leafs())
                .raw("sse0", rnd(e0, 1000)).raw("sse1", rnd(e1, 1000)).raw("sse", order(e1, e0))
                .raw("min", toks(f->min())).raw("max", toks(f->max())).emit();
        }
    }
}
int main(int argc, char** argv) {
    tleaf::stretch = .25;
    return main_loop(argc, argv, run);
}

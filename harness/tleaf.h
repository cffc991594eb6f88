// Test functions of the C08 and C09 drivers: linear in their parameters with small
// integer coefficients, and depending on the input through one integer feature.
#pragma once
#include <core/function.h>
namespace tleaf {
using namespace alta;

static double stretch = 1;   // of the features
static double feature(const vec& x, double* margin) {
    double f = 0;
    for (int k = 0; k < x.size(); ++k) f += (k + 1) * x[k];
    f *= 3 * stretch;
    if (margin) *margin = std::fabs(f - std::floor(f) - 0.5);
    return std::nearbyint(f);
}

struct lin : public nonlinear_function {
    int n; vec p, lo, up; std::vector<std::vector<double> > a, b;
    lin(const alta::parameters& pr, int n_) : nonlinear_function(pr), n(n_), p(n_), lo(n_), up(n_) {}
    virtual bool load(std::istream&) { return false; }
    virtual vec operator()(const vec& x) const { return value(x); }
    void (*looked)(const lin*) = 0;      // told of every evaluation
    virtual vec value(const vec& x) const {
        if (looked) looked(this);
        double s = feature(x.head(parametrization().dimX()), 0);
        vec r = vec::Zero(parametrization().dimY());
        for (int y = 0; y < r.size(); ++y) for (int i = 0; i < n; ++i) r[y] += p[i] * (a[y][i] + b[y][i] * s);
        return r;
    }
    virtual int nbParameters() const { return n; }
    virtual vec parameters() const { return p; }
    virtual void setParameters(const vec& q) { for (int i = 0; i < n; ++i) p[i] = q[i]; }
    virtual vec getParametersMin() const { return lo; }
    virtual vec getParametersMax() const { return up; }
    virtual vec parametersJacobian(const vec& x) const {
        if (looked) looked(this);
        double s = feature(x.head(parametrization().dimX()), 0);
        vec j(n * parametrization().dimY());
        for (int y = 0; y < parametrization().dimY(); ++y) for (int i = 0; i < n; ++i) j[y * n + i] = a[y][i] + b[y][i] * s;
        return j;
    }
};

// ---- trees of such functions, from words
typedef std::vector<std::string> words;
static std::vector<lin*> leaves;
static ptr<nonlinear_function> parse(const words& w, size_t& k) {
    auto I = [&]() { return atoi(w[k++].c_str()); };
    std::string kind = w[k++];
    if (kind == "L") {
        params::input pin = params::parse_input(w[k++]);
        int dx = pin == params::UNKNOWN_INPUT ? 2 : params::dimension(pin);
        int n = I(), dy = I();
        lin* f = new lin(alta::parameters(dx, dy, pin, params::INV_STERADIAN), n);
        for (int i = 0; i < n; ++i) f->p[i] = I();
        for (int i = 0; i < n; ++i) f->lo[i] = I();
        for (int i = 0; i < n; ++i) f->up[i] = I();
        f->a.resize(dy); f->b.resize(dy);
        for (int y = 0; y < dy; ++y) for (int i = 0; i < n; ++i) f->a[y].push_back(I());
        for (int y = 0; y < dy; ++y) for (int i = 0; i < n; ++i) f->b[y].push_back(I());
        leaves.push_back(f);
        return ptr<nonlinear_function>(f);
    }
    if (kind == "S") {
        int m = I();
        std::vector<arguments> args;
        for (int i = 0; i < m; ++i) {
            int fl = I();
            arguments o;
            if (fl) o.update("fixed", "");
            if (i % 2) o.update("other", "1");
            args.push_back(o);
        }
        std::vector<ptr<nonlinear_function> > fs;
        for (int i = 0; i < m; ++i) fs.push_back(parse(w, k));
        return ptr<nonlinear_function>(new compound_function(fs, args));
    }
    int fl = I(), fr = I();
    ptr<nonlinear_function> l = parse(w, k), r = parse(w, k);
    return ptr<nonlinear_function>(new product_function(l, r, fl, fr));
}
}

// Histories of rational functions: sizes, coefficients, values, the sequence of degrees.
#include "drv.h"
#include <core/function.h>
#include <core/rational_function.h>
#include <core/plugins_manager.h>
#include <core/params.h>
using namespace alta;
using namespace drv;

// a value as a fraction in lowest terms
static std::string frac(double v) {
    char b[64];
    if (v != v) return "[0,0]";
    if (std::isinf(v)) return v > 0 ? "[1,0]" : "[-1,0]";
    double h0 = 0, h1 = 1, k0 = 1, k1 = 0, x = v;
    for (int i = 0; i < 40; ++i) {
        double a = std::floor(x);
        double h = a * h1 + h0, k = a * k1 + k0;
        h0 = h1; h1 = h; k0 = k1; k1 = k;
        if (std::fabs(h) > 2e9 || k > 2e6) break;
        if (std::fabs(h / k - v) <= 1e-10 * std::max(1.0, std::fabs(v)) ) { snprintf(b, 64, "[%.0f,%.0f]", h, k); return b; }
        x = 1 / (x - a);
    }
    return "[" + std::to_string(NOTINT) + ",1]";
}
struct Obj { ptr<rational_function> f; double u; int dx, dy; };
static std::vector<Obj> objs;
static std::string quarters(const vec& v) { return jarr(v, (int)v.size(), [](double x) { return sc(x, 4); }); }
static std::string list(const words& w, size_t a, int n) {
    std::string s = "[";
    for (int i = 0; i < n; ++i) s += (i ? "," : "") + w[a + i];
    return s + "]";
}
static vec vals(const words& w, size_t a, int n, double u) {
    vec v(n);
    for (int i = 0; i < n; ++i) v[i] = num(w[a + i]) * u;
    return v;
}
static std::string state() {
    std::string s = "[";
    for (size_t i = 0; i < objs.size(); ++i) {
        s += i ? ",[" : "[";
        for (int k = 0; k < objs[i].dy; ++k) {
            const rational_function& f = *objs[i].f;
            const rational_function_1d* r = f.get(k);
            if (k) s += ",";
            if (!r) { s += "{\"some\":false}"; continue; }
            vec p = r->getP(), q = r->getQ();
            bool each = true;
            for (int j = 0; j < p.size(); ++j) if (r->getP(j) != p[j]) each = false;
            for (int j = 0; j < q.size(); ++j) if (r->getQ(j) != q[j]) each = false;
            s += "{\"some\":true,\"p\":" + quarters(p) + ",\"q\":" + quarters(q) + ",\"each\":" + (each ? "true" : "false") + "}";
        }
        s += "]";
    }
    return s + "]";
}
static void run(const std::vector<words>& cmds) {
    std::string d0; std::vector<std::string> last; int td = 0; long tn = 0;
    ptr<rational_function> table; 
    objs.clear();
    for (const words& w : cmds) {
        auto I = [&](size_t k) { return atoi(w[k].c_str()); };
        if (w[0] == "create") {   // basis plugin dx dy par np nq lo.. hi..
            Obj o;
            o.dx = I(3); o.dy = I(4);
            params::input pin = params::parse_input(w[5]);
            o.u = w[5] == "SPHERICAL_TL_PL_TV_PV" ? M_PI / 3 : 1;
            alta::parameters p(o.dx, o.dy, pin, params::RGB_COLOR);
            if (w[2] == "core") o.f = ptr<rational_function>(new rational_function(p, 0, 0));
            else {
                ptr<function> f(plugins_manager::get_function(w[2], p));
                o.f = dynamic_pointer_cast<rational_function>(f);
            }
            if (!o.f) { Ev("NoFunction").emit(); return; }
            o.f->setMin(vals(w, 8, o.dx, o.u)); o.f->setMax(vals(w, 8 + o.dx, o.dx, o.u));
            o.f->setSize(I(6), I(7));
            objs.push_back(o);
            Ev("Create").str("basis", w[1]).num("dx", o.dx).num("dy", o.dy).str("par", w[5]).num("np", I(6)).num("nq", I(7))
                .raw("lo", list(w, 8, o.dx)).raw("hi", list(w, 8 + o.dx, o.dx)).emit();
            continue;
        }
        if (w[0] == "table") {    // d n : the next n multi-degrees (starting anew with a new d)
            if (I(1) != td) {
                td = I(1); tn = 0;
                alta::parameters p(td, 1, params::UNKNOWN_INPUT, params::UNKNOWN_OUTPUT);
                table = ptr<rational_function>(new rational_function(p, 1, 1));
                Ev("TableStart").num("d", td).emit();
            }
            int n = I(2);
            const rational_function_1d* r = table->get(0);
            std::string s = "[";
            for (int i = 0; i < n; ++i) {
                std::vector<int> v = r->index2degree((int)tn + i);
                s += (i ? "," : "") + jarr(v, (int)v.size(), [](int x) { return std::to_string(x); });
            }
            tn += n - 1;
            Ev("Table").num("n", n).raw("degs", s + "]").emit();
            continue;
        }
        Obj& o = objs[I(1) - 1];
        int k = w.size() > 2 ? I(2) - 1 : 0;
        if (w[0] == "get") { bool ok = o.f->get(k) != NULL; if (ok) Ev("Get").num("i", I(1)).num("k", k + 1).raw("st", state()).emit(); }
        else if (w[0] == "size") { o.f->setSize(I(2), I(3)); Ev("Size").num("i", I(1)).num("np", I(2)).num("nq", I(3)).raw("st", state()).emit(); }
        else if (w[0] == "domain") {
            o.f->setMin(vals(w, 2, o.dx, o.u)); o.f->setMax(vals(w, 2 + o.dx, o.dx, o.u));
            Ev("Domain").num("i", I(1)).raw("lo", list(w, 2, o.dx)).raw("hi", list(w, 2 + o.dx, o.dx)).raw("st", state()).emit();
        } else if (w[0] == "resize") {
            o.f->get(k)->resize(I(3), I(4));
            Ev("Resize").num("i", I(1)).num("k", k + 1).num("np", I(3)).num("nq", I(4)).raw("st", state()).emit();
        } else if (w[0] == "update") {   // i k np nq a.. b.. (quarters)
            int np = I(3), nq = I(4);
            o.f->get(k)->update(vals(w, 5, np, .25), vals(w, 5 + np, nq, .25));
            Ev("Update").num("i", I(1)).num("k", k + 1).raw("a", list(w, 5, np)).raw("b", list(w, 5 + np, nq)).raw("st", state()).emit();
        } else if (w[0] == "copy") {     // i k j m
            o.f->update(k, objs[I(3) - 1].f->get(I(4) - 1));
            Ev("Copy").num("i", I(1)).num("k", k + 1).num("j", I(3)).num("m", I(4)).raw("st", state()).emit();
        } else if (w[0] == "copyall") {  // i j
            o.f->update(objs[I(2) - 1].f);
            Ev("CopyAll").num("i", I(1)).num("j", I(2)).raw("st", state()).emit();
        } else if (w[0] == "load") {     // i lo hi (np nq a.. b..)*dy
            std::ostringstream t;
            t.precision(17);
            size_t c = 2;
            t << "#FUNC rational_function\n#MIN";
            for (int j = 0; j < o.dx; ++j) t << " " << num(w[c + j]) * o.u;
            t << "\n#MAX";
            for (int j = 0; j < o.dx; ++j) t << " " << num(w[c + o.dx + j]) * o.u;
            t << "\n";
            std::string lo = list(w, c, o.dx), hi = list(w, c + o.dx, o.dx), ps = "[", qs = "[";
            c += 2 * o.dx;
            std::unique_ptr<rational_function_1d> deg(new rational_function_1d(alta::parameters(o.dx, 1, params::UNKNOWN_INPUT, params::UNKNOWN_OUTPUT), 1, 1));
            for (int y = 0; y < o.dy; ++y) {
                int np = I(c), nq = I(c + 1);
                t << "#NP " << np << "\n#NQ " << nq << "\n";
                for (int j = 0; j < np + nq; ++j) {
                    std::vector<int> v = deg->index2degree(j < np ? j : j - np);
                    for (int x : v) t << x << "\t";
                    t << num(w[c + 2 + j]) / 4 << "\n";
                }
                t << "\n";
                ps += (y ? "," : "") + list(w, c + 2, np); qs += (y ? "," : "") + list(w, c + 2 + np, nq);
                c += 2 + np + nq;
            }
            std::istringstream in(t.str());
            bool ok = o.f->load(in);
            Ev("Load").num("i", I(1)).flag("ok", ok).raw("lo", lo).raw("hi", hi).raw("ps", ps + "]").raw("qs", qs + "]").raw("st", state()).emit();
        } else if (w[0] == "value" || w[0] == "call") {    // i x..
            vec x = vals(w, 2, o.dx, o.u);
            vec v = w[0] == "call" ? (*o.f)(x) : o.f->value(x);
            Ev("Value").num("i", I(1)).raw("x", list(w, 2, o.dx)).raw("v", jarr(v, (int)v.size(), frac)).emit();
        } else if (w[0] == "pq") {       // i k x..
            vec x = vals(w, 3, o.dx, o.u);
            rational_function_1d* r = o.f->get(k);
            vec dirt(64); for (int j = 0; j < 64; ++j) dirt[j] = 7;   // what the next allocation may find
            dirt.resize(1); dirt[0] = 3;
            { vec a(1), b(1); a[0] = b[0] = 5; }
            vec p = r->p(x); { vec a(1); a[0] = 5; }
            vec q = r->q(x), v = r->value(x);
            Ev("PQ").num("i", I(1)).num("k", k + 1).raw("x", list(w, 3, o.dx)).raw("p", frac(p[0])).raw("q", frac(q[0])).raw("v", frac(v[0])).emit();
        }
    }
}
int main(int argc, char** argv) { return main_loop(argc, argv, run); }

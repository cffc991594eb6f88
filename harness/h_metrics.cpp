// Driver for C21: metrics of the library and of the tools.
#include "tool.h"
#include <core/args.h>
#include <core/data.h>
#include <core/function.h>
#include <core/metrics.h>
#include <core/plugins_manager.h>
#include <core/vertical_segment.h>
using namespace alta; using namespace drv;

// data that can be evaluated at the configurations it knows
struct Table : public data {
    std::map<int, vec> key, val;
    Table(const parameters& p) : data(p, 0) {}
    vec get(int i) const { return vec(); }
    void set(int i, const vec& x) {}
    vec value(const vec& x) const {
        for (std::map<int, vec>::const_iterator it = key.begin(); it != key.end(); ++it) {
            vec a = x, b = it->second;
            if (_parameters.input_parametrization() != params::UNKNOWN_INPUT && x.size() > 2) {     // angles are not unique
                a.resize(6); b.resize(6);
                params::convert(x.data(), _parameters.input_parametrization(), params::CARTESIAN, a.data());
                params::convert(it->second.data(), _parameters.input_parametrization(), params::CARTESIAN, b.data());
            }
            if ((a - b).lpNorm<Eigen::Infinity>() < 1e-5) return val.find(it->first)->second;
        }
        return vec::Constant(_parameters.dimY(), 5e5);
    }
};
static std::map<int, vec> sph, rx;              // configurations; their coordinates in the reference
static ptr<data> inp; static Table* tab = NULL;
static ptr<vertical_segment> ref, mask;
static params::input rin = params::UNKNOWN_INPUT;
static int rdx, dy;
static std::vector<std::pair<int, vec>> rowsv; static std::vector<double> maskv;
static std::string path(const std::string& n) { return scratch + "/" + n; }

static void build() {
    ref = ptr<vertical_segment>(new vertical_segment(parameters(rdx, dy, rin, params::UNKNOWN_OUTPUT), rowsv.size()));
    for (size_t i = 0; i < rowsv.size(); ++i) { vec v(rdx + dy); v << rx[rowsv[i].first], rowsv[i].second; ref->set(i, v); }
}
static void build_mask() {
    mask = ptr<vertical_segment>(new vertical_segment(parameters(rdx, 1, rin, params::UNKNOWN_OUTPUT), maskv.size()));
    for (size_t i = 0; i < maskv.size(); ++i) { vec v(rdx + 1); v << rx[rowsv[i].first], maskv[i]; mask->set(i, v); }
}
static std::string arr(const vec& v, double p, double s) { return jarr(v, v.size(), [=](double x) { return rnd(std::pow(x, p), s); }); }
static bool vecline(const std::string& file, const std::string& key, vec& v, int nth = 1) {
    std::ifstream in(file.c_str()); std::string l;
    while (std::getline(in, l)) if (l.compare(0, key.size(), key) == 0 && --nth == 0) {
        std::string t = l.substr(key.size()); for (char& c : t) if (c == '[' || c == ']' || c == ',') c = ' ';
        std::istringstream s(t); std::vector<double> q; std::string w; while (s >> w) q.push_back(num(w));
        v = Eigen::Map<vec>(q.data(), q.size()); return (int)q.size() == dy;
    }
    v = vec::Constant(dy, 1e9); return false;
}
static void emit(Ev& e, vec l1, vec l2, vec l3, vec li, vec mse, vec rmse) {
    e.raw("l1", arr(l1, 1, 1000)).raw("l2s", arr(l2, 2, 1)).raw("l3c", arr(l3, 3, 1)).raw("linf", arr(li, 1, 1000))
     .raw("mse", arr(mse, 1, 2520)).raw("rmses", arr(rmse, 2, 2520));
}
static void fromfile(Ev& e, const std::string& f) {
    vec a, b, c, d, m, r; bool ok = true;
    ok &= vecline(f, "L1 :", a); ok &= vecline(f, "L2 :", b); ok &= vecline(f, "L3 :", c);
    ok &= vecline(f, "LINF :", d); ok &= vecline(f, "MSE :", m); ok &= vecline(f, "RMSE :", r);
    emit(e, a, b, c, d, m, r);
    e.flag("whole", ok);
}

static void run(const std::vector<words>& cmds) {
    params::input pin = params::UNKNOWN_INPUT;
    for (const words& w : cmds) {
        if (w[0] == "ref") { rin = params::parse_input(w[1]); rdx = atoi(w[2].c_str()); dy = atoi(w[3].c_str()); }
        else if (w[0] == "inp") { pin = params::parse_input(w[1]); tab = new Table(parameters(atoi(w[2].c_str()), dy, pin, params::UNKNOWN_OUTPUT)); inp = ptr<data>(tab); }
        else if (w[0] == "grid") {      // grid param sizes values...: configuration k+1 is node k
            pin = params::parse_input(w[1]);
            inp = plugins_manager::get_data("data_grid", 1, parameters(params::dimension(pin), dy, pin, params::UNKNOWN_OUTPUT),
                                            arguments::create_arguments("--grid-size " + unesc(w[2])));
            for (int i = 0; i < inp->size(); ++i) {
                vec x = inp->get(i), y(rdx);
                for (int k = 0; k < dy; ++k) x[params::dimension(pin) + k] = num(w[3 + i * dy + k]);
                inp->set(i, x);
                if (rin == pin) y = x.head(rdx); else { vec q = x.head(params::dimension(pin)); params::convert(q.data(), pin, rin, y.data()); }
                rx[i + 1] = y;
            }
        } else if (w[0] == "conf") {    // conf id tl pl tv pv
            int c = atoi(w[1].c_str()); vec s(4), y(rdx), k(tab ? params::dimension(pin) : 0);
            for (int j = 0; j < 4; ++j) s[j] = num(w[2 + j]);
            params::convert(s.data(), params::SPHERICAL_TL_PL_TV_PV, rin, y.data()); rx[c] = y;
            if (tab) { params::convert(s.data(), params::SPHERICAL_TL_PL_TV_PV, pin, k.data()); tab->key[c] = k; }
        } else if (w[0] == "at") {      // at id coordinates (of both)
            int c = atoi(w[1].c_str()); vec y(rdx);
            for (int j = 0; j < rdx; ++j) y[j] = num(w[2 + j]);
            rx[c] = y; if (tab) tab->key[c] = y;
        } else if (w[0] == "val") { int c = atoi(w[1].c_str()); vec y(dy); for (int k = 0; k < dy; ++k) y[k] = num(w[2 + k]); tab->val[c] = y; }
        else if (w[0] == "row") { vec y(dy); for (int k = 0; k < dy; ++k) y[k] = num(w[2 + k]); rowsv.push_back(std::make_pair(atoi(w[1].c_str()), y)); }
        else if (w[0] == "mask") { maskv.clear(); for (size_t k = 1; k < w.size(); ++k) maskv.push_back(num(w[k])); }
        else if (w[0] == "poke") {
            int i = atoi(w[1].c_str()), k = atoi(w[2].c_str()); rowsv[i - 1].second[k - 1] = num(w[3]);
            Ev("Poke").num("i", i).num("k", k).raw("v", w[3]).emit();
        } else if (w[0] == "pokein") {
            int c = atoi(w[1].c_str()), k = atoi(w[2].c_str()); tab->val[c][k - 1] = num(w[3]);
            Ev("PokeIn").num("c", c).num("k", k).raw("v", w[3]).emit();
        } else if (w[0] == "flip") { int i = atoi(w[1].c_str()); maskv[i - 1] = num(w[2]); Ev("Flip").num("i", i).raw("v", w[2]).emit(); }
        else if (w[0] == "unmask") { maskv.clear(); Ev("Unmask").emit(); }
        else if (w[0] == "compute") {
            build(); if (!maskv.empty()) build_mask();
            errors::metrics r;
            r["stale"] = vec::Zero(1);
            errors::compute(inp.get(), ref.get(), maskv.empty() ? NULL : mask.get(), r);
            Ev e("Metrics"); e.num("digits", 15);
            emit(e, r["L1"], r["L2"], r["L3"], r["LInf"], r["MSE"], r["RMSE"]);
            e.emit();
        } else if (w[0] == "stats") {   // data2stats
            build(); ref->save(path("ref.alta")); inp->save(path("in.grid"));
            int st = tool({"data2stats", "--input", "in.grid", "--in-data", "data_grid", "--ref", "ref.alta", "--output", "out.txt"}, scratch, "log");
            Ev e("Tool"); e.num("status", st).num("digits", 6).flag("weighted", false);
            fromfile(e, path("out.txt")); e.emit();
        } else if (w[0] == "func") {    // func file-text weighted
            std::ofstream(path("f.func").c_str()) << unesc(w[1]);
            build(); ref->save(path("ref.alta"));
            int st = tool({"brdf2stats", "--brdf", "f.func", "--input", "ref.alta", "--output", "out.txt"}, scratch, "log");
            Ev e("Tool"); e.num("status", st).num("digits", 6).flag("weighted", w[2] == "1");
            fromfile(e, path("out.txt"));
            vec a, b, c, d;
            vecline(path("out.txt"), "MSE * cos(theta_light) :", a); vecline(path("out.txt"), "RMSE * cos(theta_light) :", b);
            vecline(path("out.txt"), "MSE * cos(theta_light) * cos(theta_view) :", c); vecline(path("out.txt"), "RMSE * cos(theta_light) cos(theta_view)  :", d);
            e.raw("wl", arr(a, 1, 2520)).raw("rwl", arr(b, 2, 2520)).raw("wlv", arr(c, 1, 2520)).raw("rwlv", arr(d, 2, 2520));
            e.emit();
            ptr<function> f(plugins_manager::load_function(path("f.func")));
            ptr<data> dd = ref;
            double l2 = f->L2_distance(dd), li = f->Linf_distance(dd);
            Ev("Func").raw("l2s", rnd(l2 * l2, 2520)).raw("linf", rnd(li, 1000)).emit();
        }
    }
}
int main(int argc, char** argv) { return main_loop(argc, argv, run); }

// Driver for C19 and C20: runs of the command line tools on a directory of files.
#include "tool.h"
#include <core/args.h>
#include <core/data.h>
#include <core/data_storage.h>
#include <core/function.h>
#include <core/plugins_manager.h>
#include <core/vertical_segment.h>
#include <dirent.h>
#include <sys/resource.h>
#include <sys/stat.h>
using namespace alta; using namespace drv;

static std::map<int, vec> sph;      // configurations below 100
static std::string path(const std::string& n) { return scratch + "/" + n; }
static std::string slurp(const std::string& p) {
    std::ifstream f(p.c_str(), std::ios::binary); if (!f) return "<none>";
    std::stringstream s; s << f.rdbuf(); return s.str();
}
// coordinates of a configuration
static vec coords(int c, params::input p) {
    if (p == params::UNKNOWN_INPUT) { vec x(2); x << c, -0.5 * c; return x; }
    vec x(params::dimension(p));
    if (c > 100) { double k = (c - 101) / 12.0; params::convert(&k, params::COS_TH, p, x.data()); return x; }
    params::convert(sph[c].data(), params::SPHERICAL_TL_PL_TV_PV, p, x.data()); return x;
}
// what makes two coordinates the same configuration
static vec key(vec x, params::input p) {
    if (p == params::UNKNOWN_INPUT || p == params::COS_TH) return x;
    vec c(6); params::convert(x.data(), p, params::CARTESIAN, c.data()); return c;
}
static int which(const vec& x, params::input p) {
    vec k = key(x, p);
    if (p != params::COS_TH) for (std::map<int, vec>::iterator i = sph.begin(); i != sph.end(); ++i) {
        vec q = key(coords(i->first, p), p);
        if (q.size() == k.size() && (k - q).lpNorm<Eigen::Infinity>() < 2e-5) return i->first;
    }
    if (p != params::UNKNOWN_INPUT) for (int c = 101; c <= 113; ++c) if ((k - key(coords(c, p), p)).lpNorm<Eigen::Infinity>() < 2e-5) return c;
    return 0;
}
static std::string whole(double v, double s = 1) { double r = std::nearbyint(v * s); return std::isfinite(v) && std::fabs(v * s - r) < 1e-4 * (1 + std::fabs(r) * 1e-3) ? std::to_string((long)r) : "9999999"; }
static std::string wholes(const vec& v, double s = 1) { return jarr(v, v.size(), [=](double x) { return whole(x, s); }); }
static std::string bad(const std::string& why) { return "{\"k\":" + jstr("unreadable: " + why) + "}"; }
static std::vector<std::vector<double> > table(const std::string& f) {
    std::ifstream in(f.c_str()); std::string line; std::vector<std::vector<double> > t;
    while (std::getline(in, line)) { std::vector<double> r; for (const std::string& w : split(line)) r.push_back(num(w)); t.push_back(r); }
    return t;
}
static bool vecline(const std::string& file, const std::string& k, vec& v) {
    std::ifstream in(file.c_str()); std::string l;
    while (std::getline(in, l)) if (l.compare(0, k.size(), k) == 0) {
        std::string t = l.substr(k.size()); for (char& c : t) if (c == '[' || c == ']' || c == ',') c = ' ';
        std::istringstream s(t); std::vector<double> q; std::string w; while (s >> w) q.push_back(num(w));
        v = Eigen::Map<vec>(q.data(), q.size()); return true;
    }
    v = vec(); return false;
}
static std::string content(const std::string& kind, const std::string& file) {
    std::string k = kind.substr(0, kind.find(':')), a = kind.find(':') == std::string::npos ? "" : kind.substr(kind.find(':') + 1);
    try {
        std::string f = path(file);
        if (slurp(f) == "<none>") return bad("missing");
        if (k == "data" || k == "grid") {
            ptr<data> d = plugins_manager::load_data(f, k == "grid" ? "data_grid" : "");
            if (!d) return bad("data");
            params::input p = d->parametrization().input_parametrization(); int dx = d->parametrization().dimX(), dy = d->parametrization().dimY();
            std::string r;
            for (int i = 0; i < d->size(); ++i) {
                vec x = d->get(i), y = x.tail(dy);
                r += (i ? "," : "") + (k == "grid" ? wholes(y) : "{\"c\":" + std::to_string(which(x.head(dx), p)) + ",\"y\":" + wholes(y) + "}");
            }
            std::string head = slurp(f).substr(0, 4000);
            bool bin = head.find("#FORMAT binary") != std::string::npos;
            if (k == "grid") return "{\"k\":\"grid\",\"dy\":" + std::to_string(dy) + ",\"y\":[" + r + "]}";
            return "{\"k\":\"data\",\"par\":" + jstr(params::get_name(p)) + ",\"bin\":" + (bin ? "true" : "false") + ",\"dy\":" + std::to_string(dy) + ",\"rows\":[" + r + "]}";
        }
        if (k == "func") {
            ptr<function> g(plugins_manager::load_function(f));
            if (!g) return bad("func");
            params::input p = g->parametrization().input_parametrization(); std::string r;
            for (int c = 1; c <= 113; ++c) {
                bool in = p == params::UNKNOWN_INPUT ? sph.count(c) : p == params::COS_TH ? c > 100 : c > 100 || sph.count(c);
                r += (c > 1 ? "," : "") + (in ? wholes(g->value(coords(c, p))) : std::string("[]"));
            }
            return "{\"k\":\"func\",\"par\":" + jstr(params::get_name(p)) + ",\"dy\":" + std::to_string(g->parametrization().dimY()) + ",\"f\":[" + r + "]}";
        }
        if (k == "fit") {       // fit:data : errors at the samples
            ptr<function> g(plugins_manager::load_function(f)); ptr<data> d = plugins_manager::load_data(path(a), "");
            if (!g || !d) return bad("fit");
            std::string r;
            for (int i = 0; i < d->size(); ++i) {
                vec x = d->get(i), q = x.head(d->parametrization().dimX());
                params::input p = g->parametrization().input_parametrization();
                if (p != params::UNKNOWN_INPUT && p != d->parametrization().input_parametrization()) { vec z(g->parametrization().dimX()); params::convert(q.data(), d->parametrization().input_parametrization(), p, z.data()); q = z; }
                vec e = (g->value(q) - x.tail(d->parametrization().dimY())).cwiseAbs();
                r += (i ? "," : "") + jarr(e, e.size(), [](double v) { return rnd(v, 1000); });
            }
            return "{\"k\":\"fit\",\"err\":[" + r + "]}";
        }
        if (k == "plot") {      // plot:parametrization of the data
            params::input p = params::parse_input(a); int dx = p == params::UNKNOWN_INPUT ? 2 : params::dimension(p); std::string r;
            std::vector<std::vector<double> > t = table(f);
            for (size_t i = 0; i < t.size(); ++i) {
                if ((int)t[i].size() <= dx) return bad("row");
                vec x = Eigen::Map<vec>(t[i].data(), dx), y = Eigen::Map<vec>(t[i].data() + dx, t[i].size() - dx);
                r += (i ? "," : "") + std::string("{\"c\":") + std::to_string(which(x, p)) + ",\"y\":" + wholes(y, 100) + "}";
            }
            return "{\"k\":\"plot\",\"rows\":[" + r + "]}";
        }
        if (k == "linear") {
            std::string r; std::vector<std::vector<double> > t = table(f);
            for (size_t i = 0; i < t.size(); ++i) {
                if (t[i].empty()) return bad("row");
                r += (i ? "," : "") + std::string("{\"i\":") + rnd(t[i][0], 1) + ",\"y\":" + jarr(t[i].data() + 1, t[i].size() - 1, [](double v) { return std::isfinite(v) ? rnd(v, 1000) : std::string("0"); }) + "}";
            }
            return "{\"k\":\"linear\",\"rows\":[" + r + "]}";
        }
        if (k == "polar") {
            std::string r, y; std::vector<std::vector<double> > t = table(f);
            for (size_t i = 0; i < t.size(); ++i) {
                if (t[i].empty()) return bad("row");
                r += (i ? "," : "") + rnd(t[i][0], 1e6);
                y += (i ? "," : "") + jarr(t[i].data() + 1, t[i].size() - 1, [](double v) { return whole(v); });
            }
            return "{\"k\":\"polar\",\"at\":[" + r + "],\"y\":[" + y + "]}";
        }
        if (k == "stats") {
            vec v; if (!vecline(f, "L1 :", v) || slurp(f).find("RMSE :") == std::string::npos) return bad("stats");
            return "{\"k\":\"stats\",\"l1\":" + jarr(v, v.size(), [](double x) { return rnd(x, 12); }) + "}";
        }
        if (k == "moments") {
            vec a, b, c, z; if (!vecline(f, "\\mu_0 = ", a) || !vecline(f, "\\mu_x = ", b) || !vecline(f, "\\mu_{xx} = ", c) || !vecline(f, "\\mu_{yyy} = ", z)) return bad("moments");
            auto F = [](double x) { return rnd(x, 1000); };
            return "{\"k\":\"moments\",\"m0\":" + jarr(a, a.size(), F) + ",\"mx\":" + jarr(b, b.size(), F) + ",\"mxx\":" + jarr(c, c.size(), F) + "}";
        }
    } catch (std::exception& e) { return bad(e.what()); }
    return bad("kind");
}

static void run(const std::vector<words>& cmds) {
    std::vector<std::string> names, env;
    for (const words& w : cmds) {
        if (w[0] == "conf") { vec s(4); for (int j = 0; j < 4; ++j) s[j] = num(w[2 + j]); sph[atoi(w[1].c_str())] = s; }
        else if (w[0] == "env") env.push_back(w[1]);
        else if (w[0] == "name") { names.push_back(w[1]); unlink(path(w[1]).c_str()); }
        else if (w[0] == "raw") { std::ofstream(path(w[1]).c_str(), std::ios::binary) << unesc(w[2]); }
        else if (w[0] == "cut") { std::string s = slurp(path(w[1])); int n = w[2] == "half" ? s.size() / 2 : atoi(w[2].c_str()); std::ofstream(path(w[1]).c_str(), std::ios::binary) << s.substr(0, n < 0 ? s.size() + n : n); }
        else if (w[0] == "data") {      // data name param binary dy (c y...)*
            params::input p = params::parse_input(w[2]); int dy = atoi(w[4].c_str()), n = (w.size() - 5) / (dy + 1);
            vertical_segment d(parameters(p == params::UNKNOWN_INPUT ? 2 : params::dimension(p), dy, p, params::UNKNOWN_OUTPUT), n);
            std::string t = "#DIM " + std::to_string(d.parametrization().dimX()) + " " + std::to_string(dy) + "\n#PARAM_IN " + params::get_name(p) + "\n";
            for (int i = 0; i < n; ++i) {
                vec x = coords(atoi(w[5 + i * (dy + 1)].c_str()), p), y(dy), v(x.size() + dy);
                for (int k = 0; k < dy; ++k) y[k] = num(w[6 + i * (dy + 1) + k]);
                v << x, y; d.set(i, v);
                char b[64]; for (int k = 0; k < v.size(); ++k) { snprintf(b, sizeof b, "%.17g ", v[k]); t += b; }
                t += "\n";
            }
            std::ofstream o(path(w[1]).c_str(), std::ios::binary);
            if (w[3] == "1") save_data_as_binary(o, d); else o << t;
        } else if (w[0] == "grid") {    // grid name n dy values
            int n = atoi(w[2].c_str()), dy = atoi(w[3].c_str());
            ptr<data> d = plugins_manager::get_data("data_grid", 1, parameters(1, dy, params::COS_TH, params::UNKNOWN_OUTPUT), arguments::create_arguments("--grid-size [" + w[2] + "]"));
            for (int i = 0; i < n; ++i) { vec x = d->get(i); for (int k = 0; k < dy; ++k) x[1 + k] = num(w[4 + i * dy + k]); d->set(i, x); }
            d->save(path(w[1]));
        } else if (w[0] == "regrid") {  // regrid par sizes dy topar tosizes splat all argv values
            std::vector<int> n; { std::stringstream ss(w[2]); std::string q; while (std::getline(ss, q, (char)44)) n.push_back(atoi(q.c_str())); }
            int dy = atoi(w[3].c_str()); params::input p = params::parse_input(w[1]);
            std::string sz = "["; for (size_t i = 0; i < n.size(); ++i) sz += (i ? "," : "") + std::to_string(n[i]); sz += "]";
            ptr<data> d = plugins_manager::get_data("data_grid", 1, parameters(n.size(), dy, p, params::UNKNOWN_OUTPUT), arguments::create_arguments("--grid-size " + sz + " --param " + w[1]));
            std::string ys;
            for (int i = 0; i < d->size(); ++i) {
                vec x = d->get(i); std::string r;
                for (int k = 0; k < dy; ++k) { x[n.size() + k] = num(w[9 + i * dy + k]); r += (k ? "," : "") + w[9 + i * dy + k]; }
                d->set(i, x); ys += (i ? ",[" : "[") + r + "]";
            }
            d->save(path("tab")); std::string before = slurp(path("tab")); unlink(path("new").c_str());
            std::string to = "["; for (char c : w[5]) to += c == ',' ? std::string(", ") : std::string(1, c); to += "]";
            std::vector<std::string> a = {"data2data", "--in-data", "data_grid", "--out-data", "data_grid", "--input", "tab", "--output", "new", "--param", w[4], "--grid-size", to};
            if (w[6] == "1") a.push_back("--splat");
            if (w[7] == "1") a.push_back("--all-values");
            if (w[8] != "-") a.push_back(w[8]);
            int st = tool(a, scratch, path("log"), 60, env);
            std::string y, par = "none", m = "[]";
            if (st == 0) try {
                ptr<data> o = plugins_manager::load_data(path("new"), "data_grid");
                std::ifstream in(path("new").c_str()); arguments h = arguments::parse_header(in);
                std::vector<int> s = h.get_vec<int>("grid-size"); m = jarr(s, s.size(), [](int v) { return std::to_string(v); });
                par = params::get_name(o->parametrization().input_parametrization());
                for (int i = 0; i < o->size(); ++i) { vec x = o->get(i); y += (i ? "," : "") + wholes(x.tail(o->parametrization().dimY())); }
            } catch (std::exception& e) { par = e.what(); }
            Ev("Grid").num("status", st).flag("kept", slurp(path("tab")) == before).str("par", par).raw("m", m).raw("y", "[" + y + "]")
                .raw("t", "{\"n\":[" + w[2] + "],\"dy\":" + w[3] + ",\"y\":[" + ys + "]}").str("topar", w[4]).raw("to", "[" + w[5] + "]")
                .flag("splat", w[6] == "1").flag("all", w[7] == "1").emit();
        } else if (w[0] == "polarx") {  // polarx a b c sine samples
            double co[7] = {num(w[1]), 100 * num(w[2]), 0, 0, 10 * num(w[3]), 0, 0}, ones = 1;
            std::string t = "#ALTA FUNC HEADER\n#CMD --func rational_function\n#DIM 6 1\n#PARAM_IN  CARTESIAN\n#PARAM_OUT UNKNOWN_OUTPUT\n#ALTA HEADER END\n\n#FUNC rational_function\n#MIN -1 -1 -1 -1 -1 -1\n#MAX 1 1 1 1 1 1\n#NP 7\n#NQ 1\n", zero = "0\t0\t0\t0\t0\t0\t";
            for (int i = 0; i < 7; ++i) t += zero + std::to_string(co[i]) + "\n";
            t += zero + std::to_string(ones) + "\n\n";
            std::ofstream(path("pf").c_str()) << t; unlink(path("po").c_str());
            char b[64]; snprintf(b, sizeof b, "%.15g", asin(num(w[4]) / 10));
            int st = tool({"brdf2gnuplot", "--input", "pf", "--output", "po", "--polar-plot", "--samples", w[5], "--inc-angle", b}, scratch, path("log"), 60, env);
            std::string r, y; std::vector<std::vector<double> > tb = table(path("po"));
            for (size_t i = 0; i < tb.size(); ++i) if (!tb[i].empty()) {
                r += (i ? "," : "") + rnd(tb[i][0], 1e6);
                y += (i ? "," : "") + jarr(tb[i].data() + 1, tb[i].size() - 1, [](double v) { return rnd(v, 1000); });
            }
            Ev("Polar").num("status", st).raw("at", "[" + r + "]").raw("y", "[" + y + "]").raw("a", w[1]).raw("b", w[2]).raw("c", w[3]).raw("s", w[4]).raw("n", w[5]).emit();
        } else if (w[0] == "moments") { // moments par sizes dy samples dims dx dy(0) ... values from 9
            std::vector<int> n; { std::stringstream ss(w[2]); std::string q; while (std::getline(ss, q, (char)44)) n.push_back(atoi(q.c_str())); }
            int dy = atoi(w[3].c_str()); params::input p = params::parse_input(w[1]);
            std::string sz = "["; for (size_t i = 0; i < n.size(); ++i) sz += (i ? "," : "") + std::to_string(n[i]); sz += "]";
            ptr<data> d = plugins_manager::get_data("data_grid", 1, parameters(n.size(), dy, p, params::UNKNOWN_OUTPUT), arguments::create_arguments("--grid-size " + sz + " --param " + w[1]));
            std::string ys;
            for (int i = 0; i < d->size(); ++i) {
                vec x = d->get(i); std::string r;
                for (int k = 0; k < dy; ++k) { x[n.size() + k] = num(w[9 + i * dy + k]); r += (k ? "," : "") + w[9 + i * dy + k]; }
                d->set(i, x); ys += (i ? ",[" : "[") + r + "]";
            }
            d->save(path("tab")); std::string before = slurp(path("tab")); unlink(path("mom").c_str());
            std::string smp = w[4], dims = "[" + w[5] + "]";
            std::vector<std::string> a = {"data2moments", "--data", "data_grid", "--input", "tab", "--output", "mom", "--samples", "[" + smp + "]", "--dim", dims};
            int st = tool(a, scratch, path("log"), 60, env);
            static const char* keys[] = {"_0", "_x", "_y", "_{xx}", "_{xy}", "_{yy}", "_{xxx}", "_{xxy}", "_{xyy}", "_{yyy}"};
            std::string m;
            if (slurp(path("mom")) != "<none>") for (int k = 0; k < 10; ++k) {
                vec v; if (!vecline(path("mom"), std::string("\\mu") + keys[k] + " =", v)) { m += std::string(k ? "," : "") + "[]"; continue; }
                m += (k ? "," : "") + jarr(v, v.size(), [](double x) { return rnd(x, 1000); });
            }
            Ev("Moments").num("status", st).flag("kept", slurp(path("tab")) == before).raw("m", "[" + m + "]").raw("s", "[" + smp + "]")
                .raw("t", "{\"n\":[" + w[2] + "],\"dy\":" + w[3] + ",\"y\":[" + ys + "]}").num("dx", atoi(w[6].c_str())).num("dy", atoi(w[7].c_str())).flag("bad", w[8] == "1").emit();
        } else if (w[0] == "func") {    // func name param dimX dy coefficients (dimX + 1 for each output)
            int dx = atoi(w[3].c_str()), dy = atoi(w[4].c_str());
            std::string t = "#ALTA FUNC HEADER\n#CMD --func rational_function\n#DIM " + w[3] + " " + w[4] + "\n#PARAM_IN  " + w[2] + "\n#PARAM_OUT UNKNOWN_OUTPUT\n#ALTA HEADER END\n\n#FUNC rational_function\n#MIN ", zero;
            for (int i = 0; i < dx; ++i) t += "-1.0000000000e+00 ";
            t += "\n#MAX "; for (int i = 0; i < dx; ++i) { t += "1.0000000000e+00 "; zero += "0\t"; }
            t += "\n";
            for (int k = 0; k < dy; ++k) {
                t += "#NP " + std::to_string(dx + 1) + "\n#NQ 1\n";
                for (int i = 0; i <= dx; ++i) {     // exponents are those that the class generates: constant, then each variable
                    t += zero + w[5 + k * (dx + 1) + i] + "\n";
                }
                t += zero + "1\n\n";
            }
            std::ofstream(path(w[1]).c_str()) << t;
        } else if (w[0] == "cmd" || w[0] == "help") {     // cmd json kind out fault argv...
            std::string out = w[3], fault = w[4];
            std::map<std::string, std::string> before;
            for (const std::string& n : names) before[n] = slurp(path(n));
            if (fault == "isdir") mkdir(path("dir").c_str(), 0777);
            std::vector<std::string> a; for (size_t i = 5; i < w.size(); ++i) a.push_back(unesc(w[i]));
            int st;
            if (fault == "limit") {     // no file may grow beyond a few bytes
                pid_t pid = fork();
                if (pid == 0) {
                    signal(SIGXFSZ, SIG_IGN); struct rlimit l = {4, 4}; setrlimit(RLIMIT_FSIZE, &l);
                    st = tool(a, scratch, "/dev/null", 60, env); _exit(st > 255 ? 250 : st);
                }
                int s = 0; waitpid(pid, &s, 0); st = WIFEXITED(s) ? WEXITSTATUS(s) : 9999; if (st == 250) st = 9999;
            } else st = tool(a, scratch, path("log"), 60, env);
            bool others = true, same = true;
            for (const std::string& n : names) if (slurp(path(n)) != before[n]) (n == out ? same : others) = false;
            Ev e(w[0] == "help" ? "Help" : "Run"); e.raw("cmd", unesc(w[1])).num("status", st).flag("others", others).flag("same", same);
            e.raw("out", st == 0 && fault == "-" && w[0] == "cmd" ? content(w[2], out) : "{\"k\":\"none\"}").emit();
        }
    }
}
int main(int argc, char** argv) { return main_loop(argc, argv, run); }

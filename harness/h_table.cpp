// Driver for C16/C17: tabulated BRDF data sets of the plugins.
#include "drv.h"
#include <core/args.h>
#include <core/data.h>
#include <core/plugins_manager.h>
#include <fstream>
#include <sys/stat.h>
#define TINYEXR_IMPLEMENTATION
#include <tinyexr/tinyexr.h>
using namespace alta; using namespace drv;

struct coord { double lo, step; bool root; };       // x = lo + step*q, or the square of that
static std::vector<coord> cs;
static std::string plug;
static arguments opts;
static ptr<data> t;
static int total, planes = 3;
static std::string raw = "none";
static double scale[3] = {1, 1, 1};
static long header;

static double fill(int s, int i, int p) { return s == 0 ? 0 : ((i % 9973) * 7 + (i / 9973) * 3 + (p + 1) * 331 + s) % 1009 + 1; }
static double toq(int c, double x) { double v = cs[c].root ? std::sqrt(x) : x; return (v - cs[c].lo) / cs[c].step; }
static double fromq(int c, double q) { double v = cs[c].lo + cs[c].step * q; return cs[c].root ? v * v : v; }
static int dx() { return (int)cs.size(); }
static vec row(int i, const std::function<double(int)>& y) {
    vec r = t->get(i), v(dx() + planes);
    for (int c = 0; c < dx(); ++c) v[c] = r[c];
    for (int p = 0; p < planes; ++p) v[dx() + p] = y(p);
    return v;
}
static std::string path(const std::string& n) { return scratch + "/" + n; }
static long fsize(const std::string& p) { struct stat s; return stat(p.c_str(), &s) ? -1 : (long)s.st_size; }
static void loaded(const std::string& p, const std::string& what) {
    ptr<data> d; bool ok = false;
    try { d = plugins_manager::load_data(p, plug, opts); ok = (bool)d; }
    catch (const std::exception&) {}
    Ev e("Load"); e.str("what", what).flag("ok", ok);
    if (ok) {
        const parameters& q = d->parametrization();
        e.num("n", d->size()).raw("dim", "[" + std::to_string(q.dimX()) + "," + std::to_string(q.dimY()) + "]")
         .raw("params", "[" + jstr(params::get_name(q.input_parametrization())) + "," + jstr(params::get_name(q.output_parametrization())) + "]");
        t = d;
    }
    e.emit();
}
static void copy_cut(const std::string& a, const std::string& b, long n) {
    std::ifstream in(a.c_str(), std::ios::binary); std::ofstream out(b.c_str(), std::ios::binary | std::ios::trunc);
    std::vector<char> buf(1 << 20);
    while (n > 0 && in) { in.read(buf.data(), std::min<long>(n, buf.size())); out.write(buf.data(), in.gcount()); n -= in.gcount(); }
}
static void forge(const std::string& file, int salt, const std::vector<int>& dims, int n) {
    std::ofstream out;
    if (raw == "exr") {
        std::vector<float> px(3 * n);
        for (int i = 0; i < n; ++i) for (int p = 0; p < 3; ++p) px[3 * i + p] = fill(salt, i, p);
        const char* err = NULL;
        SaveEXR(px.data(), dims[0], dims[1], 3, 0, file.c_str(), &err);
        return;
    }
    out.open(file.c_str(), std::ios::binary | std::ios::trunc);
    for (int d : dims) out.write((const char*)&d, sizeof d);
    for (int p = 0; p < 3; ++p) for (int i = 0; i < n; ++i) { double v = fill(salt, i, p) / scale[p]; out.write((const char*)&v, 8); }
}

static void run(const std::vector<words>& cmds) {
    std::string ext = "bin";
    std::vector<int> fdims;
    for (const words& w : cmds) {
        if (w[0] == "table") {              // table plugin ext total raw [option words]
            plug = w[1]; ext = w[2]; total = atoi(w[3].c_str()); raw = w[4];
            if (plug == "data_merl") { scale[0] = 1. / 1500; scale[1] = 1.15 / 1500; scale[2] = 1.66 / 1500; header = 12; }
            std::string o; for (size_t k = 5; k < w.size(); ++k) o += " " + unesc(w[k]);
            opts = arguments::create_arguments(o);
        } else if (w[0] == "dims") { for (size_t k = 1; k < w.size(); ++k) fdims.push_back(atoi(w[k].c_str()));
        } else if (w[0] == "coord") cs.push_back(coord{num(w[1]), num(w[2]), w[3] == "1"});
        else if (w[0] == "new") {
            parameters p(dx(), planes, params::parse_input(w[1]), params::RGB_COLOR);
            t = plugins_manager::get_data(plug, atoi(w[2].c_str()), p, opts);
            Ev("New").num("n", t ? t->size() : -1).emit();
        } else if (w[0] == "fill") {        // fill salt step: in the order 0, step, 2 step, ... modulo the size
            int s = atoi(w[1].c_str()); long st = atol(w[2].c_str());
            for (long k = 0, i = 0; k < total; ++k, i = (i + st) % total) t->set(i, row(i, [=](int p) { return fill(s, i, p); }));
            Ev("Fill").num("salt", s).emit();
        } else if (w[0] == "set") {
            int i = atoi(w[1].c_str());
            t->set(i, row(i, [&](int p) { return num(w[2 + p]); }));
            Ev("Set").num("i", i).raw("y", "[" + w[2] + "," + w[3] + "," + w[4] + "]").emit();
        } else if (w[0] == "get") {
            int i = atoi(w[1].c_str()); vec r = t->get(i);
            std::string q = "[", y = "[";
            for (int c = 0; c < dx(); ++c) q += (c ? "," : "") + sc(toq(c, r[c]), 1, 1e-6);
            for (int p = 0; p < planes; ++p) y += (p ? "," : "") + sc(r[dx() + p], 1, 1e-6);
            Ev("Get").num("i", i).raw("q", q + "]").raw("y", y + "]").emit();
        } else if (w[0] == "at") {          // at scale q...
            double m = num(w[1]); vec x(dx());
            std::string q = "[";
            for (int c = 0; c < dx(); ++c) { x[c] = fromq(c, num(w[2 + c])); q += (c ? "," : "") + w[2 + c]; }
            vec v = t->value(x);
            Ev("At").raw("q", q + "]").raw("y", jarr(v, planes, [=](double d) { return rnd(d, m); })).emit();
        } else if (w[0] == "self") {
            double m = num(w[1]); int i = atoi(w[2].c_str());
            vec r = t->get(i), x(dx());
            for (int c = 0; c < dx(); ++c) x[c] = r[c];
            vec v = t->value(x);
            Ev("Self").num("i", i).raw("y", jarr(v, planes, [=](double d) { return rnd(d, m); })).emit();
        } else if (w[0] == "sweep") {
            int s = atoi(w[1].c_str()); long g = 0, e = 0, n = 0;
            for (int i = 0; i < t->size(); ++i, ++n) {
                vec r = t->get(i), x(dx());
                for (int c = 0; c < dx(); ++c) x[c] = r[c];
                vec v = t->value(x);
                bool a = true, b = true;
                for (int p = 0; p < planes; ++p) {
                    a = a && std::fabs(r[dx() + p] - fill(s, i, p)) <= 1e-6;
                    b = b && std::fabs(v[p] - fill(s, i, p)) <= .06;
                }
                g += !a; e += !b;
            }
            Ev("Sweep").num("salt", s).num("gets", g).num("selves", e).num("seen", n).emit();
        } else if (w[0] == "range") {
            std::string lo = "[", hi = "[";
            const vec &a = t->min(), &b = t->max();
            for (int c = 0; c < dx(); ++c) {
                bool ok = a.size() == dx() && b.size() == dx();
                lo += (c ? "," : "") + (ok ? std::to_string((long)std::floor(toq(c, a[c]) + 1e-6)) : std::to_string(NOTINT));
                hi += (c ? "," : "") + (ok ? std::to_string((long)std::ceil(toq(c, b[c]) - 1e-6)) : std::to_string(-NOTINT));
            }
            Ev("Range").raw("lo", lo + "]").raw("hi", hi + "]").emit();
        } else if (w[0] == "save") {
            std::string p = w[1] == "good" ? path("t." + ext) : w[1] == "full" ? "/dev/full" : path("missing/t." + ext);
            bool ok = true;
            try { t->save(p); } catch (const std::exception&) { ok = false; }
            Ev("Save").str("where", w[1]).flag("ok", ok).emit();
        } else if (w[0] == "forge") {
            forge(path("t." + ext), atoi(w[1].c_str()), fdims, total);
            Ev("Forge").num("salt", atoi(w[1].c_str())).emit();
        } else if (w[0] == "raw") {
            if (raw == "exr") {
                float* px = NULL; int W = 0, H = 0; const char* err = NULL;
                int r = LoadEXR(&px, &W, &H, path("t." + ext).c_str(), &err);
                for (size_t k = 1; k < w.size(); ++k) {
                    int i = atoi(w[k].c_str());
                    std::string y = "[";
                    for (int p = 0; p < 3; ++p) y += (p ? "," : "") + (r == TINYEXR_SUCCESS && i < W * H ? sc(px[4 * i + p], 1) : std::to_string(NOTINT));
                    Ev("Raw").num("i", i).raw("y", y + "]").emit();
                }
            } else {
                std::ifstream in(path("t." + ext).c_str(), std::ios::binary);
                for (size_t k = 1; k < w.size(); ++k) {
                    long i = atol(w[k].c_str());
                    std::string y = "[";
                    for (int p = 0; p < 3; ++p) {
                        double v = NAN; in.clear(); in.seekg(header + 8 * (p * (long)total + i)); in.read((char*)&v, 8);
                        y += (p ? "," : "") + sc(v * scale[p], 1);
                    }
                    Ev("Raw").num("i", i).raw("y", y + "]").emit();
                }
            }
        } else if (w[0] == "load") loaded(path("t." + ext), "whole");
        else if (w[0] == "missing") loaded(path("none." + ext), "missing");
        else if (w[0] == "cut") {           // cut k/1000 of the file, or the last -k bytes
            long n = fsize(path("t." + ext)), k = atol(w[1].c_str());
            long to = w[1] == "0" ? 0 : k < 0 ? std::max(0L, n + k) : std::min(n - 1, (long)(n * (k / 1000.0)));
            if (ext == "grid") {            // a number cut in two is still a number: cut in front of the last one
                std::ifstream in(path("t." + ext).c_str()); std::string all((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
                long last = all.find_last_of("0123456789"), sep = all.find_last_of("\t\n ", last);
                to = std::min(to, sep);
            }
            copy_cut(path("t." + ext), path("c." + ext), to);
            loaded(path("c." + ext), "cut");
            unlink(path("c." + ext).c_str());
        } else if (w[0] == "other") {       // other salt d1 d2 ...: a file of other dimensions
            std::vector<int> d; long n = 1;
            for (size_t k = 2; k < w.size(); ++k) { d.push_back(atoi(w[k].c_str())); n *= d.back(); }
            forge(path("o." + ext), atoi(w[1].c_str()), d, n > 0 ? n : 0);
            loaded(path("o." + ext), "dims");
            unlink(path("o." + ext).c_str());
        } else if (w[0] == "extra") {       // a grid file with more samples than the grid has
            std::ifstream in(path("t." + ext).c_str()); std::string all((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()), line = all.substr(all.rfind('\n', all.size() - 2) + 1);
            std::ofstream(path("x." + ext).c_str()) << all << line;
            loaded(path("x." + ext), "extra"); unlink(path("x." + ext).c_str());
        } else if (w[0] == "precise") {     // a value with all its digits, through a file
            int i = atoi(w[1].c_str()); vec keep = t->get(i);
            t->set(i, row(i, [&](int p) { return std::acos(-1.) * (i % 97 + 1) * std::pow(7.3, p - 1); }));
            vec want = t->get(i); bool close = false;
            try {
                t->save(path("p." + ext));
                ptr<data> d = plugins_manager::load_data(path("p." + ext), plug, opts);
                vec got = d->get(i); close = got.size() == want.size();
                for (int k = 0; close && k < got.size(); ++k) close = std::fabs(got[k] - want[k]) <= (raw == "exr" ? 1e-6 : 1e-13) * std::max(1., std::fabs(want[k]));
            } catch (const std::exception&) {}
            unlink(path("p." + ext).c_str()); t->set(i, row(i, [&](int p) { return keep[dx() + p]; }));
            Ev("Precise").flag("close", close).emit();
        } else if (w[0] == "junk") {        // bytes that are no such file
            std::ofstream(path("j." + ext).c_str(), std::ios::binary) << unesc(w[1]);
            loaded(path("j." + ext), "junk");
        } else if (w[0] == "list") {        // list what dx dy rows file-text : ASTM
            std::ofstream(path("l.astm").c_str()) << unesc(w[5]);
            ptr<data> d; bool ok = false;
            try { d = plugins_manager::load_data(path("l.astm"), "data_astm", arguments()); ok = (bool)d; } catch (const std::exception&) {}
            Ev e("List"); e.str("what", w[1]).flag("ok", ok);
            if (ok) {
                int m = d->parametrization().dimX() + d->parametrization().dimY();
                std::string s = "[";
                for (int i = 0; i < d->size(); ++i) { vec r = d->get(i); s += (i ? "," : "") + jarr(r, m, [](double x) { return sc(x, 1000); }); }
                e.raw("dim", "[" + std::to_string(d->parametrization().dimX()) + "," + std::to_string(d->parametrization().dimY()) + "]").raw("rows", s + "]")
                 .raw("params", "[" + jstr(params::get_name(d->parametrization().input_parametrization())) + "," + jstr(params::get_name(d->parametrization().output_parametrization())) + "]");
            }
            e.raw("wantdim", "[" + w[2] + "," + w[3] + "]").raw("want", unesc(w[4])).emit();
        }
    }
}
int main(int argc, char** argv) { return main_loop(argc, argv, run); }

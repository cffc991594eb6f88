// Driver for C01-C04, C24: data files.
#include "drv.h"
#include <core/vertical_segment.h>
#include <core/data_storage.h>
#include <core/plugins_manager.h>
using namespace alta; using namespace drv;

static std::string d15(double v) {
    char b[64];
    if (v != v) return "\"nan\"";
    snprintf(b, sizeof b, "%.14e", v);
    return std::string("\"") + b + "\"";
}
static std::string path(const std::string& f) { return drv::scratch + "/" + std::to_string(getpid()) + "-" + f; }

// The complete content of a vertical_segment (all columns), or the x/y part of other data.
static void content(Ev& e, const data& d) {
    const parameters& p = d.parametrization();
    const vertical_segment* vs = dynamic_cast<const vertical_segment*>(&d);
    e.num("dx", p.dimX()).num("dy", p.dimY())
     .str("pin", params::get_name(p.input_parametrization()))
     .str("pout", params::get_name(p.output_parametrization()))
     .num("kind", vs ? (int)vs->confidence_interval_kind() : 0);
    std::string h = "[", g = "[";
    for (int i = 0; i < d.size(); ++i) {
        vec r = vs ? vec(vs->matrix_view().row(i)) : d.get(i);
        // what get(i) says must be what is stored
        vec x = d.get(i);
        for (int j = 0; j < x.size(); ++j) r[j] = x[j];
        h += (i ? "," : "") + jarr(r, r.size(), tok);
        g += (i ? "," : "") + jarr(r, r.size(), d15);
    }
    e.raw("h", h + "]").raw("d", g + "]");
}

static std::string slurp(const std::string& p) {
    std::ifstream f(p.c_str(), std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str();
}

static void run(const std::vector<words>& cmds) {
    ptr<data> ds;
    std::map<std::string, std::string> bin;      // uncut binary files
    std::map<std::string, bool> early;
    std::string text;
    for (const words& w : cmds) {
        const std::string& c = w[0];
        if (c == "ds") {     // ds dx dy pin pout kind n values...
            int dx = atoi(w[1].c_str()), dy = atoi(w[2].c_str()), kind = atoi(w[5].c_str()), n = atoi(w[6].c_str());
            int cols = dx + dy + kind * dy;
            double* d = new double[n * cols + 1];
            for (int i = 0; i < n * cols; ++i) d[i] = num(w[7 + i]);
            parameters p(dx, dy, params::parse_input(w[3]), params::parse_output(w[4]));
            ds.reset(new vertical_segment(p, n, std::shared_ptr<double>(d, [](double* q) { delete[] q; }),
                                          (vertical_segment::ci_kind)kind));
            Ev e("Build"); content(e, *ds);
            e.raw("want", "{\"dx\":" + w[1] + ",\"dy\":" + w[2] + ",\"pin\":" + jstr(w[3]) + ",\"pout\":" + jstr(w[4]) + ",\"n\":" + w[6] + "}");
            e.emit();
        } else if (c == "savetext") {
            bool ok = true;
            try { ds->save(path(w[1])); } catch (std::exception&) { ok = false; }
            bin.erase(w[1]); early[w[1]] = false;
            Ev("SaveText").str("f", w[1]).flag("ok", ok).emit();
        } else if (c == "savebin") {
            bool ok = true;
            try {
                std::ofstream o(path(w[1]).c_str(), std::ios::binary | std::ios::trunc);
                save_data_as_binary(o, *ds); o.close(); ok = !!o;
            } catch (std::exception&) { ok = false; }
            std::string s = slurp(path(w[1]));
            bin[w[1]] = s; early[w[1]] = false;
            size_t b = s.find("#BEGIN_STREAM\n"), e = s.rfind("\n#END_STREAM");
            Ev("SaveBin").str("f", w[1]).flag("ok", ok).num("payBegin", b == std::string::npos ? 0 : b + 14)
                .num("payEnd", e == std::string::npos ? 0 : e).emit();
        } else if (c == "cut") {     // cut f (abs N | frac of region)
            std::string s = bin[w[1]];
            size_t fm = s.find("#FORMAT"); fm = fm == std::string::npos ? 0 : s.find('\n', fm) + 1;
            size_t b = s.find("#BEGIN_STREAM\n"); b = b == std::string::npos ? 0 : b + 14;
            size_t at = w[2] == "hdr" ? fm + (size_t)(num(w[3]) * (b - fm))
                      : w[2] == "pay" ? b + (size_t)(num(w[3]) * (s.size() - b))
                      : (size_t)(num(w[3]) * fm);
            if (at > s.size()) at = s.size();
            std::ofstream o(path(w[1]).c_str(), std::ios::binary | std::ios::trunc);
            o.write(s.data(), at); o.close();
            early[w[1]] = at < fm;
            Ev("Cut").str("f", w[1]).num("at", at).num("fmtEnd", fm).num("payBegin", b).emit();
        } else if (c == "foreign") { // foreign f KEY value : another value in the header
            std::string s = bin[w[1]], key = "#" + w[2] + " ";
            size_t b = s.find("#BEGIN_STREAM\n"), k = s.find(key), e = s.find('\n', k);
            bool ok = k < b && e < b;
            if (ok) s = s.substr(0, k) + key + unesc(w[3]) + s.substr(e);
            std::ofstream o(path(w[1]).c_str(), std::ios::binary | std::ios::trunc);
            o.write(s.data(), s.size()); o.close();
            Ev("Foreign").str("f", w[1]).flag("ok", ok).str("key", w[2]).emit();
        } else if (c == "cutall") {  // every cut between the format declaration and the end of the file, each loaded
            std::string s = bin[w[1]];
            size_t fm = s.find("#FORMAT"); fm = fm == std::string::npos ? 0 : s.find('\n', fm) + 1;
            size_t b = s.find("#BEGIN_STREAM\n"); b = b == std::string::npos ? 0 : b + 14;
            for (size_t at = fm; at <= s.size(); ++at) {
                std::ofstream o(path(w[1]).c_str(), std::ios::binary | std::ios::trunc);
                o.write(s.data(), at); o.close();
                Ev("Cut").str("f", w[1]).num("at", at).num("fmtEnd", fm).num("payBegin", b).emit();
                ptr<data> r;
                try { r = plugins_manager::load_data(path(w[1]), ""); } catch (std::exception&) { r.reset(); }
                Ev e("Load"); e.str("f", w[1]).flag("ok", !!r).flag("early", false);
                if (r) content(e, *r);
                e.emit();
            }
        } else if (c == "big") {     // big n dx dy kind seed cut: a large binary file, saved, loaded and, without its last bytes, loaded again
            int n = atoi(w[1].c_str()), dx = atoi(w[2].c_str()), dy = atoi(w[3].c_str()), kind = atoi(w[4].c_str());
            unsigned long long x = atoi(w[5].c_str()) * 2654435761ULL + 1;
            size_t cols = dx + dy + kind * dy, len = n * cols;
            double* d = new double[len];
            for (size_t i = 0; i < len; ++i) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; d[i] = (long long)(x >> 11) * 1e-7 - 4e8; }
            std::vector<double> want(d, d + len);
            auto k = (vertical_segment::ci_kind)kind;
            ptr<data> big(new vertical_segment(parameters(dx, dy, params::UNKNOWN_INPUT, params::UNKNOWN_OUTPUT), n,
                                               std::shared_ptr<double>(d, [](double* q) { delete[] q; }), k));
            bool saved = true;
            try { std::ofstream o(path("big").c_str(), std::ios::binary | std::ios::trunc); save_data_as_binary(o, *big); o.close(); saved = !!o; }
            catch (std::exception&) { saved = false; }
            std::string s = slurp(path("big"));
            size_t b = s.find("#BEGIN_STREAM\n"), e = s.rfind("\n#END_STREAM");
            b = b == std::string::npos ? 0 : b + 14; e = e == std::string::npos ? 0 : e;
            auto load = [&](bool& ok) -> int {         // the number of leading rows that are as saved
                ptr<data> r; ok = true;
                try { r = plugins_manager::load_data(path("big"), ""); } catch (std::exception&) { r.reset(); }
                vertical_segment* v = dynamic_cast<vertical_segment*>(r.get());
                if (!v) { ok = false; return 0; }
                if (v->size() != n || v->parametrization().dimX() != dx || v->parametrization().dimY() != dy || v->confidence_interval_kind() != k) return 0;
                for (int i = 0; i < n; ++i) {
                    auto row = v->matrix_view().row(i);
                    if (row.size() != (int)cols) return i;
                    for (size_t j = 0; j < cols; ++j) { double q = row[j]; if (memcmp(&q, &want[i * cols + j], sizeof q)) return i; }
                }
                return n;
            };
            bool ok, cutok; int same = load(ok);
            { std::ofstream o(path("big").c_str(), std::ios::binary | std::ios::trunc); o.write(s.data(), std::max<long>(b, (long)e - atol(w[6].c_str()))); }
            load(cutok);
            unlink(path("big").c_str());
            Ev("Big").num("n", n).num("dx", dx).num("dy", dy).num("kind", kind).flag("saved", saved).num("payload", (long)e - (long)b)
                .flag("ok", ok).num("same", same).flag("cutok", cutok).emit();
        } else if (c == "load") {    // load f
            ptr<data> r;
            std::string p = w[1] == "missing" ? "/nonexistent/nothing" : path(w[1]);
            try { r = plugins_manager::load_data(p, w.size() > 2 ? w[2] : ""); } catch (std::exception&) { r.reset(); }
            Ev e("Load"); e.str("f", w[1]).flag("ok", !!r).flag("early", early[w[1]]);
            if (r) { content(e, *r); if (!early[w[1]]) ds = r; }
            e.emit();
        } else if (c == "put") {     // one line of a text file; "~" escapes; "-n" suffix: no newline
            text += unesc(w[1]);
        } else if (c == "textload") {  // textload <scale> args...  : load `text` with options
            double S = num(w[1]);
            std::ofstream o(path("t").c_str(), std::ios::binary | std::ios::trunc); o << text; o.close();
            std::vector<std::string> a(w.begin() + 2, w.end());
            for (auto& x : a) x = unesc(x);
            std::vector<char*> av; for (auto& x : a) av.push_back(&x[0]);
            arguments args(av.size(), av.data());
            ptr<data> r; 
            try { r = plugins_manager::load_data(path("t"), "", args); } catch (std::exception&) { r.reset(); }
            Ev e("TextLoad"); e.flag("ok", !!r);
            vertical_segment* vs = dynamic_cast<vertical_segment*>(r.get());
            auto f = [S](double v) { return sc(v, S, 1e-5); };
            if (vs) {
                const parameters& p = vs->parametrization();
                e.num("dx", p.dimX()).num("dy", p.dimY()).num("n", vs->size())
                 .str("pin", params::get_name(p.input_parametrization()))
                 .str("pout", params::get_name(p.output_parametrization()));
                std::string rows = "[", ci = "[";
                for (int i = 0; i < vs->size(); ++i) {
                    vec g = vs->get(i); rows += (i ? "," : "") + jarr(g, g.size(), f);
                    vec x, yl, yu; vs->get(i, x, yl, yu);
                    ci += std::string(i ? "," : "") + "[" + jarr(yl, yl.size(), f) + "," + jarr(yu, yu.size(), f) + "]";
                }
                e.raw("rows", rows + "]").raw("ci", ci + "]");
                if (vs->size() > 0) {
                    e.raw("min", jarr(vs->min(), vs->min().size(), f)).raw("max", jarr(vs->max(), vs->max().size(), f));
                }
            } else if (r) e.num("dx", -1);
            e.emit();
        }
    }
    // leave nothing behind
    for (const char* f : {"f", "g", "t"}) unlink(path(f).c_str());
}
int main(int argc, char** argv) { return main_loop(argc, argv, run); }

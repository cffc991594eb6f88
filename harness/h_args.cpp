// Driver for C06, C07: options and headers.
#include "drv.h"
#include <core/args.h>
using namespace alta; using namespace drv;
struct A : public arguments {
    A(const arguments& a) : arguments(a) {}
    std::string map() const {
        std::string s = "[";
        for (auto& p : _map) s += (s.size() > 1 ? "," : "") + ("[" + jstr(p.first) + "," + jstr(p.second) + "]");
        return s + "]";
    }
};
static std::string map_of(const arguments& a) { return A(a).map(); }
static std::string strs(const std::vector<std::string>& v) { return jarr(v, v.size(), jstr); }
static std::string m3(double v) { return sc(v, 1000, 1e-4); }
static void run(const std::vector<words>& cmds) {
    arguments a;
    for (const words& w : cmds) {
        if (w[0] == "args") {
            std::vector<std::string> v;
            for (size_t i = 1; i < w.size(); ++i) v.push_back(unesc(w[i]));
            std::vector<char*> av; for (auto& x : v) av.push_back(&x[0]);
            a = arguments(av.size(), av.data());
            Ev("Parse").raw("ws", strs(v)).raw("map", map_of(a)).emit();
        } else if (w[0] == "update") {
            a.update(unesc(w[1]), unesc(w[2]));
            Ev("Update").str("k", unesc(w[1])).str("v", unesc(w[2])).raw("map", map_of(a)).emit();
        } else if (w[0] == "get") {      // get reader key default n
            std::string r = w[1], k = unesc(w[2]);
            Ev e("Get"); e.str("r", r).str("k", k);
            if (r == "has") e.flag("ret", a.is_defined(k));
            else if (r == "isvec") e.flag("ret", a.is_vec(k));
            else if (r == "op") e.str("ret", a[k]);
            else if (r == "str") e.str("d", unesc(w[3])).str("ret", a.get_string(k, unesc(w[3])));
            else if (r == "int") e.num("d", atoi(w[3].c_str())).num("ret", a.get_int(k, atoi(w[3].c_str())));
            else if (r == "float") e.raw("d", m3(num(w[3]))).raw("ret", m3(a.get_float(k, num(w[3]))));
            else if (r == "double") e.raw("d", m3(num(w[3]))).raw("ret", m3(a.get_double(k, num(w[3]))));
            else if (r == "vec") {
                vec v = a.get_vec(k, atoi(w[4].c_str()), num(w[3]));
                e.raw("d", m3(num(w[3]))).num("n", atoi(w[4].c_str())).raw("ret", jarr(v, v.size(), m3));
            } else if (r == "reals") { auto v = a.get_vec<double>(k); e.raw("ret", jarr(v, v.size(), m3)); }
            else if (r == "list") e.raw("ret", strs(a.get_vec(k)));
            else if (r == "pair") {
                auto p = a.get_pair<int>(k);
                e.raw("ret", "[" + std::to_string(p.first) + "," + std::to_string(p.second) + "]");
            }
            e.emit();
        } else if (w[0] == "map") Ev("Map").raw("map", map_of(a)).emit();
        else if (w[0] == "record") {
            std::string c = a.get_cmd();
            Ev("Record").str("cmd", c).raw("again", map_of(arguments::create_arguments(c))).emit();
        } else if (w[0] == "header") {   // header nl line...
            std::vector<std::string> ls;
            std::string t;
            for (size_t i = 2; i < w.size(); ++i) {
                ls.push_back(unesc(w[i]));
                t += ls.back();
                if (i + 1 < w.size() || w[1] == "1") t += "\n";
            }
            std::istringstream in(t);
            a = arguments::parse_header(in);
            std::vector<std::string> rest;
            std::string s;
            while (std::getline(in, s)) rest.push_back(s);
            Ev("Header").raw("ls", strs(ls)).raw("map", map_of(a)).raw("rest", strs(rest)).emit();
        }
    }
}
int main(int argc, char** argv) { return main_loop(argc, argv, run); }

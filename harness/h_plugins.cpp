// Driver for C18: plugins_manager with an installation directory of our own ("./sys",
// relative to the directory a scenario runs in).
#include "drv.h"
#undef ALTA_PLUGIN_DIRECTORY
#define ALTA_PLUGIN_DIRECTORY "sys"
#include <core/plugins_manager.cpp>
#include <sys/stat.h>
using namespace alta; using namespace drv;

struct origin { std::string path; virtual ~origin() {} };
struct afunc : public function, origin {
    afunc(const parameters& p) : function(p) {}
    virtual bool load(std::istream&) { return false; }
    virtual vec operator()(const vec& x) const { return value(x); }
    virtual vec value(const vec&) const { return vec::Zero(parametrization().dimY()); }
};
struct adata : public data, origin {
    adata() : data(parameters(1, 1, params::COS_TH, params::INV_STERADIAN), 0) {}
    virtual vec get(int) const { return vec::Zero(2); }
    virtual vec value(const vec&) const { return vec::Zero(1); }
    virtual void set(int, const vec&) {}
};
struct afit : public fitter, origin {
    virtual bool fit_data(const ptr<data>&, ptr<function>&, const arguments&) { return false; }
    virtual void set_parameters(const arguments&) {}
};
extern "C" void* drv_make(const char* what, const char* path, const void* pp) {
    std::string k = what;
    if (k == "function") { afunc* f = new afunc(*(const parameters*)pp); f->path = path; return static_cast<function*>(f); }
    if (k == "fitter") { afit* f = new afit; f->path = path; return static_cast<fitter*>(f); }
    adata* d = new adata; d->path = path + std::string(k == "load" ? "" : ""); return static_cast<data*>(d);
}

static void run(const std::vector<words>& cmds) {
    char dir[] = "sXXXXXX";
    std::string root = scratch + "/" + dir;
    if (!mkdtemp(&root[0]) || chdir(root.c_str())) _exit(3);
    unsetenv("ALTA_PLUGIN_PATH");
    for (const words& w : cmds) {
        if (w[0] == "dir") mkdir(w[1].c_str(), 0755);
        else if (w[0] == "path" || w[0] == "apath") {        // apath: directories as absolute names
            std::string p = unesc(w[1]);
            if (p == "unset") { unsetenv("ALTA_PLUGIN_PATH"); p = ""; }
            else {
                std::string q = p;
                if (w[0] == "apath") {
                    std::istringstream is(p); std::string e; q = "";
                    for (size_t b = 0;; ) {
                        size_t k = p.find(':', b);
                        e = p.substr(b, k == std::string::npos ? k : k - b);
                        q += e.empty() ? "" : root + "/" + e;
                        if (k == std::string::npos) break;
                        q += ":"; b = k + 1;
                    }
                }
                setenv("ALTA_PLUGIN_PATH", q.c_str(), 1);
            }
            Ev("Path").str("p", p).emit();
        } else if (w[0] == "put") {                          // dir file source provides...
            std::string to = w[1] + "/" + unesc(w[2]);
            words has(w.begin() + 4, w.end());
            if (w[3] == "dir") mkdir(to.c_str(), 0755);
            else {
                std::ofstream o(to.c_str(), std::ios::binary);
                if (w[3] == "junk") o << "not a library\n";
                else if (w[3] != "empty") {
                    bool cut = w[3].compare(0, 4, "cut:") == 0;
                    std::ifstream i((cut ? w[3].substr(4) : w[3]).c_str(), std::ios::binary);
                    std::stringstream b; b << i.rdbuf();
                    o << (cut ? b.str().substr(0, 100) : b.str());
                }
            }
            Ev("Put").str("d", w[1]).str("n", unesc(w[2])).raw("has", jarr(has, (int)has.size(), jstr)).emit();
        } else {                                             // query kind name
            std::string kind = w[1], n = unesc(w[2]), ret = "none";
            const origin* o = 0; bool any = false;
            ptr<function> f; ptr<data> d; ptr<fitter> t;
            parameters pr(1, 1, params::COS_TH, params::INV_STERADIAN);
            if (kind == "function") {
                if (w.size() > 3) {      // through options
                    arguments a; a.update("func", n);
                    f = ptr<function>(plugins_manager::get_function(a, pr));
                } else f = plugins_manager::get_function(n, pr);
                any = !!f; o = dynamic_cast<const origin*>(f.get());
            } else if (kind == "data") {
                d = plugins_manager::get_data(n, 0, pr); any = !!d; o = dynamic_cast<const origin*>(d.get());
            } else if (kind == "load") {
                std::istringstream is("#DIM 1 1\n#PARAM_IN COS_TH\n0.5 1\n");
                d = plugins_manager::load_data(n, is); any = !!d; o = dynamic_cast<const origin*>(d.get());
            } else { t = plugins_manager::get_fitter(n); any = !!t; o = dynamic_cast<const origin*>(t.get()); }
            if (any) ret = o ? o->path : "builtin";
            if (ret.compare(0, root.size() + 1, root + "/") == 0) ret = ret.substr(root.size() + 1);
            Ev("Query").str("kind", kind).str("n", n).str("ret", ret).emit();
        }
    }
    if (chdir("/")) _exit(3);
}
int main(int argc, char** argv) { return main_loop(argc, argv, run); }

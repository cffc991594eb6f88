// Rational fits through confidence intervals: the fitter plugins on small data sets.
#include "drv.h"
#include <atomic>
#include <condition_variable>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <thread>
#include <mutex>
#include <set>
#include <core/args.h>
#include <core/data.h>
#include <core/fitter.h>
#include <core/function.h>
#include <core/params.h>
#include <core/plugins_manager.h>
#include <core/rational_function.h>
#include <core/vertical_segment.h>
using namespace alta;
using namespace drv;

static const double SCALE = 1e4;

// ---- a rational function that records, and may order and grade, the candidates of a fit
struct Entry { int np, nq; double cost; };
static std::mutex mx; static std::condition_variable cv;
static std::vector<Entry> entered;
static std::vector<int> order;            // nq of the candidates, in the order they have to be compared
static size_t turn; static std::vector<double> costs; static bool scripted, tracing;
static std::set<const void*> passing;
static std::vector<vec> xs, ys;
static const void* target;                // the function the candidates compete for
struct TracedFunction : public rational_function {
    mutable bool seen = false;
    TracedFunction(const parameters& p) : rational_function(p) {}
    // the fitter grades a candidate by its values at the samples
    vec value(const vec& x) const {
        if (!tracing || this == target) return rational_function::value(x);
        TracedFunction* me = const_cast<TracedFunction*>(this);
        int nq = me->get(0)->getQ().size(), np = me->get(0)->getP().size();
        double grade = nq <= (int)costs.size() ? costs[nq - 1] : 9;
        if (!seen) {
            seen = true;
            double sum = 0;
            for (size_t i = 0; i < xs.size(); ++i) sum += (rational_function::value(xs[i]) - ys[i]).squaredNorm();
            std::unique_lock<std::mutex> lk(mx);
            if (scripted) {
                if (!cv.wait_for(lk, std::chrono::milliseconds(500), [&] {
                        return passing.empty() && (turn >= order.size() || order[turn] == nq); }))
                    turn = order.size();    // this order is not possible
                ++turn;
                passing.insert(this);       // until it is stored or dropped
            }
            entered.push_back(Entry{np, nq, scripted ? grade : std::sqrt(sum / xs.size())});
        }
        if (!scripted) return rational_function::value(x);
        for (size_t i = 0; i < xs.size(); ++i) if (xs[i] == x) return ys[i].array() + grade;
        return rational_function::value(x);
    }
    void setSize(int np, int nq) {
        if (tracing && scripted && this == target) {
            { std::lock_guard<std::mutex> lk(mx); passing.clear(); cv.notify_all(); }
            // the next candidate is on its way to the comparison
            std::this_thread::sleep_for(std::chrono::milliseconds(turn < order.size() ? 3 : 0));
        }
        rational_function::setSize(np, nq);
    }
    ~TracedFunction() {
        std::lock_guard<std::mutex> lk(mx);
        if (passing.erase(this)) cv.notify_all();
    }
};
extern "C" void* drv_make(const char*, const char*, const void* p) { return new TracedFunction(*(const parameters*)p); }

static void run(const std::vector<words>& cmds) {
    int dx = 1, dy = 1, M = 0;
    parameters par; ptr<vertical_segment> dat;
    std::string fname; ptr<function> fun; std::map<std::string, ptr<fitter> > fitters;
    for (const words& w : cmds) {
        size_t a = 1;
        auto I = [&]() { return atoi(w[a++].c_str()); };
        if (w[0] == "data") {        // kind dx dy M, per sample x y lo hi
            std::string k = w[a++];
            dx = I(); dy = I(); M = I();
            par = parameters(dx, dy, params::UNKNOWN_INPUT, params::UNKNOWN_OUTPUT);
            bool asym = k == "asym";
            int cols = dx + dy * (asym ? 3 : k == "sym" ? 2 : 1);
            double* c = new double[M * cols + 1];
            xs.clear(); ys.clear();
            for (int i = 0; i < M; ++i) {
                vec x(dx), y(dy);
                for (int j = 0; j < dx + 3 * dy; ++j) {
                    double v = num(w[a++]);
                    if (j < cols) c[i * cols + j] = v;
                    if (j < dx) x[j] = v; else if (j < dx + dy) y[j - dx] = v;
                }
                xs.push_back(x); ys.push_back(y);
            }
            dat = ptr<vertical_segment>(new vertical_segment(par, M, std::shared_ptr<double>(c, [](double* p) { delete[] p; }),
                asym ? vertical_segment::ASYMMETRICAL_CONFIDENCE_INTERVAL : k == "sym" ? vertical_segment::SYMMETRICAL_CONFIDENCE_INTERVAL : vertical_segment::NO_CONFIDENCE_INTERVAL));
            fun.reset();
        } else if (w[0] == "func") { fname = w[1]; fun.reset(); }
        else if (w[0] == "fresh") { fun.reset(); fitters.clear(); }
        else if (w[0] == "script") {     // n costs... , order...
            int n = I(); costs.clear(); order.clear(); turn = 0;
            for (int i = 0; i < n; ++i) costs.push_back(I());
            while (a < w.size()) order.push_back(I());
            scripted = true;
        } else if (w[0] == "fit") {      // seq|par key options
            bool seq = w[1] == "seq";
            std::string opts = unesc(w[3]);
            if (fname != "core") opts += " --func " + fname;
            arguments args = arguments::create_arguments(opts);
            tracing = false;
            if (!fun) fun = ptr<function>(plugins_manager::get_function(args, par));
            ptr<fitter>& f = fitters[w[1]];
            if (!f) f = plugins_manager::get_fitter(seq ? "rational_fitter_quadprog" : "rational_fitter_parallel");
            if (!f || !fun) { Ev("NoPlugin").emit(); return; }
            entered.clear(); passing.clear(); turn = 0; tracing = !seq;
            target = dynamic_cast<TracedFunction*>(fun.get());
            f->set_parameters(args);
            bool ok = f->fit_data(dat, fun, args);
            tracing = false; turn = order.size();
            Ev ev(seq ? "Seq" : "Par");
            ev.flag("ok", ok).str("key", w[2]);
            std::string ms = "{";
            for (const char* o : {"min-np", "min-nq", "np", "nq", "np-step", "nb-starting-points"})
                ms += std::string(ms.size() > 1 ? "," : "") + jstr(o) + ":" + std::to_string(args.get_int(o, 0));
            ev.raw("opt", ms + "}");
            std::string sz = "[", vs = "[", qs = "[";
            ptr<rational_function> r = dynamic_pointer_cast<rational_function>(fun);
            if (ok) {
                for (int k = 0; k < dy; ++k) {
                    rational_function_1d* rk = r->get(k);
                    sz += std::string(k ? "," : "") + "[" + std::to_string(rk->getP().size()) + "," + std::to_string(rk->getQ().size()) + "]";
                    vs += k ? ",[" : "["; qs += k ? ",[" : "[";
                    for (int i = 0; i < M; ++i) {
                        vec v = r->value(xs[i]); double q = rk->q(xs[i])[0];
                        vs += (i ? "," : "") + rnd(v[k], SCALE); qs += std::string(i ? "," : "") + (q > 0 ? "1" : q < 0 ? "-1" : "0");
                    }
                    vs += "]"; qs += "]";
                }
            }
            // what the function says of its domain is what the samples cover
            bool dom = true;
            if (ok && M) for (int j = 0; j < dx; ++j) {
                double lo = xs[0][j], hi = lo;
                for (const vec& x : xs) { lo = std::min(lo, x[j]); hi = std::max(hi, x[j]); }
                dom = dom && r->min().size() == dx && r->max().size() == dx && r->min()[j] == lo && r->max()[j] == hi;
            }
            ev.flag("dom", dom);
            ev.raw("size", sz + "]").raw("v", vs + "]").raw("q", qs + "]");
            // candidates compared, with their grade as a rank
            std::vector<double> cs; for (const Entry& e : entered) cs.push_back(e.cost);
            std::sort(cs.begin(), cs.end());
            std::map<double, int> rank; int k = 0;
            for (size_t i = 0; i < cs.size(); ++i) { if (i && cs[i] > cs[i - 1] + 1e-9 * (1 + cs[i])) ++k; rank[cs[i]] = k; }
            std::string es = "[";
            for (const Entry& e : entered)
                es += std::string(es.size() > 1 ? "," : "") + "[" + std::to_string(e.np) + "," + std::to_string(e.nq) + "," + std::to_string(rank[e.cost]) + "]";
            ev.raw("tried", es + "]").flag("traced", fname == "traced" && !seq).flag("delta", args.is_defined("use_delta")).flag("exact", scripted);
            ev.emit();
            scripted = false;
        }
    }
}
int main(int argc, char** argv) { return main_loop(argc, argv, run); }

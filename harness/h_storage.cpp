// Driver for C05: histories of reads and writes on a vertical_segment.
#include "drv.h"
#include <core/vertical_segment.h>
#include <core/data_storage.h>
using namespace alta; using namespace drv;

static std::string vecsc(const vec& v) { return jarr(v, v.size(), [](double d) { return sc(d, 1000); }); }

static void run(const std::vector<words>& cmds) {
    std::shared_ptr<vertical_segment> vs;
    for (const words& w : cmds) {
        if (w[0] == "new") {        // new n dx dy kind values...
            int n = atoi(w[1].c_str()), dx = atoi(w[2].c_str()), dy = atoi(w[3].c_str()), kind = atoi(w[4].c_str());
            int cols = dx + dy + kind * dy;
            double* d = new double[n * cols + 1];
            for (int i = 0; i < n * cols; ++i) d[i] = num(w[5 + i]);
            parameters p(dx, dy, params::UNKNOWN_INPUT, params::UNKNOWN_OUTPUT);
            vs.reset(new vertical_segment(p, n, std::shared_ptr<double>(d, [](double* q) { delete[] q; }),
                                          (vertical_segment::ci_kind)kind));
        } else if (w[0] == "newz") { // newz n dx dy : the zero-initialised constructor (asymmetric)
            parameters p(atoi(w[2].c_str()), atoi(w[3].c_str()), params::UNKNOWN_INPUT, params::UNKNOWN_OUTPUT);
            vs.reset(new vertical_segment(p, (unsigned int)atoi(w[1].c_str())));
        } else if (w[0] == "set") {
            int i = atoi(w[1].c_str());
            vec v(w.size() - 2);
            for (size_t k = 2; k < w.size(); ++k) v[k - 2] = num(w[k]);
            data* base = vs.get();
            base->set(i, v);
            Ev("Set").num("i", i).raw("v", vecsc(v)).emit();
            for (int k = 0; k < v.size(); ++k) v[k] = -777;      // the store must hold a copy
        } else if (w[0] == "get") {
            int i = atoi(w[1].c_str());
            data* base = vs.get();
            vec v = base->get(i);
            Ev("Get").num("i", i).raw("ret", vecsc(v)).emit();
            for (int k = 0; k < v.size(); ++k) v[k] = -778;      // what is handed out is a copy
        } else if (w[0] == "ci") {
            int i = atoi(w[1].c_str());
            vec x, yl, yu, yl2, yu2;
            vs->get(i, x, yl, yu);
            vs->get(i, yl2, yu2);
            Ev("Interval").num("i", i)
                .raw("ret", "[" + vecsc(x) + "," + vecsc(yl) + "," + vecsc(yu) + "]")
                .raw("ret2", "[" + vecsc(yl2) + "," + vecsc(yu2) + "]").emit();
            for (int k = 0; k < yl.size(); ++k) { yl[k] = -779; yu[k] = -779; }
        } else if (w[0] == "view") {
            auto m = vs->matrix_view();
            std::string s = "[";
            for (int i = 0; i < m.rows(); ++i) { vec r = m.row(i); s += (i ? "," : "") + vecsc(r); }
            Ev("View").raw("ret", s + "]").emit();
        } else if (w[0] == "save") {
            std::ostringstream o;
            if (w[1] == "text") save_data_as_text(o, *vs); else save_data_as_binary(o, *vs);
            Ev("Pure").str("what", "save-" + w[1]).emit();
        } else if (w[0] == "equals") {
            bool b = vs->equals(*vs);
            Ev("Pure").str("what", "equals").flag("ret", b).emit();
        }
    }
}
int main(int argc, char** argv) { return main_loop(argc, argv, run); }

// Driver for C24: data::equals.
#include "drv.h"
#include <core/vertical_segment.h>
using namespace alta; using namespace drv;
static double value(const std::string& s) {
    if (s == "nan") return NAN;
    size_t c = s.find(':');
    double hi = num(s.substr(0, c)) / 8.0;
    double lo = c == std::string::npos ? 0 : num(s.substr(c + 1)) * 1e-15;
    return hi + lo;
}
static void run(const std::vector<words>& cmds) {
    std::map<std::string, ptr<data>> d;
    for (const words& w : cmds) {
        if (w[0] == "ds") {   // ds name dx dy pin pout kind n values (all columns)
            int dx = atoi(w[2].c_str()), dy = atoi(w[3].c_str()), kind = atoi(w[6].c_str()), n = atoi(w[7].c_str());
            int cols = dx + dy + kind * dy;
            double* p = new double[n * cols + 1];
            for (int i = 0; i < n * cols; ++i) p[i] = value(w[8 + i]);
            d[w[1]].reset(new vertical_segment(
                parameters(dx, dy, params::parse_input(w[4]), params::parse_output(w[5])), n,
                std::shared_ptr<double>(p, [](double* q) { delete[] q; }), (vertical_segment::ci_kind)kind));
        } else if (w[0] == "eq") {   // eq l r default | eq l r hi lo
            bool r;
            std::string e;
            if (w[3] == "default") { r = d[w[1]]->equals(*d[w[2]]); e = "[0,10]"; }
            else { r = d[w[1]]->equals(*d[w[2]], value(w[3] + ":" + w[4])); e = "[" + w[3] + "," + w[4] + "]"; }
            Ev("Equal").str("l", w[1]).str("r", w[2]).raw("e", e).flag("ret", r).emit();
        }
    }
}
int main(int argc, char** argv) { return main_loop(argc, argv, run); }

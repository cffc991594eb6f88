// Fitters whose verdict is known: the starting parameters of a nonlinear function are
// the result, which is a success (TFIT_OK) or not.
#include <core/fitter.h>
#include <core/function.h>
#include <core/data.h>
using namespace alta;
struct start_fitter : public fitter {
    bool fit_data(const ptr<data>& d, ptr<function>& f, const arguments& args) {
        ptr<nonlinear_function> nf = dynamic_pointer_cast<nonlinear_function>(f);
        if (nf) nf->bootstrap(d, args);
        return TFIT_OK && nf;
    }
    void set_parameters(const arguments&) {}
};
ALTA_DLL_EXPORT fitter* provide_fitter() { return new start_fitter(); }

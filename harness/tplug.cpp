// A test plugin: everything it provides is made by the driver, from the path the
// plugin was loaded from.  HAVE_* choose what it provides.
#include <dlfcn.h>
static int here;
static const char* own_path() {
    Dl_info i;
    return dladdr(&here, &i) ? i.dli_fname : "?";
}
// Each plugin has a class of this name: it has to run its own.
struct provider {
    virtual const char* path();
    virtual ~provider() {}
};
__attribute__((noinline)) const char* provider::path() { return own_path(); }
extern "C" provider* make_provider() { static provider p; return &p; }
__attribute__((noinline)) const char* provided_from() { return make_provider()->path(); }

extern "C" {
void* drv_make(const char* what, const char* path, const void* params);
#ifdef HAVE_FUNC
void* provide_function(const void* params) { return drv_make("function", provided_from(), params); }
#endif
#ifdef HAVE_DATA
void* provide_data(unsigned long, const void* params, const void*) { return drv_make("data", provided_from(), params); }
#endif
#ifdef HAVE_LOAD
void* load_data(void*, const void*) { return drv_make("load", provided_from(), 0); }
#endif
#ifdef HAVE_FIT
void* provide_fitter() { return drv_make("fitter", provided_from(), 0); }
#endif
}

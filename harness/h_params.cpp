// Driver for C22: params::convert and the parametrization registry.
// Quantities of a light/view configuration are computed here from its cartesian
// form, and ("read") from the values of a parametrization by its documentation.
#include "drv.h"
#include <core/params.h>
using namespace alta; using namespace drv;
typedef std::map<std::string, double> Q;
static const double UNDEF = 1e300;
static double S = 1e6;
static double ac(double x) { return std::acos(std::max(-1.0, std::min(1.0, x))); }

static Q quantities(const double* c) {
    Q q;
    const double *v = c, *l = c + 3;
    q["vx"] = v[0]; q["vy"] = v[1]; q["vz"] = v[2]; q["lx"] = l[0]; q["ly"] = l[1]; q["lz"] = l[2];
    q["lv"] = l[0]*v[0] + l[1]*v[1] + l[2]*v[2];
    q["det"] = l[0]*v[1] - l[1]*v[0];
    double h[3], k[3], hn = 0, kn = 0;
    for (int i = 0; i < 3; ++i) { h[i] = v[i] + l[i]; hn += h[i]*h[i]; }
    k[0] = l[0]-v[0]; k[1] = l[1]-v[1]; k[2] = l[2]+v[2];
    for (int i = 0; i < 3; ++i) kn += k[i]*k[i];
    hn = sqrt(hn); kn = sqrt(kn);
    bool ho = hn > 1e-2, ko = kn > 1e-2;
    for (int i = 0; i < 3; ++i) { if (ho) h[i] /= hn; if (ko) k[i] /= kn; }
    q["hx"] = ho ? h[0] : UNDEF; q["hy"] = ho ? h[1] : UNDEF; q["hz"] = ho ? h[2] : UNDEF;
    q["hd"] = ho ? h[0]*v[0] + h[1]*v[1] + h[2]*v[2] : UNDEF;
    q["kx"] = ko ? k[0] : UNDEF; q["ky"] = ko ? k[1] : UNDEF; q["kz"] = ko ? k[2] : UNDEF;
    q["lr"] = l[2]*v[2] - l[0]*v[0] - l[1]*v[1];
    double Hx = (v[0]+l[0])/2, Hy = (v[1]+l[1])/2, Bx = (l[0]-v[0])/2, By = (l[1]-v[1])/2, Bz = (l[2]-v[2])/2;
    q["Hp"] = hypot(Hx, Hy); q["Bp"] = hypot(Bx, By); q["B"] = sqrt(Bx*Bx + By*By + Bz*Bz);
    bool hb = q["Hp"] > 1e-2 && q["Bp"] > 1e-2;
    q["cbh"] = hb ? (Hx*Bx + Hy*By) / (q["Hp"]*q["Bp"]) : UNDEF;
    q["sbh"] = hb ? (Hx*By - Hy*Bx) / (q["Hp"]*q["Bp"]) : UNDEF;
    double sl = hypot(l[0], l[1]), sv = hypot(v[0], v[1]);
    q["px"] = sl > 1e-2 ? (l[0]*v[0] + l[1]*v[1]) / sl : UNDEF;
    q["py"] = sl > 1e-2 ? q["det"] / sl : UNDEF;
    bool ld = sl > 1e-2 && sv > 1e-2;
    q["cd"] = ld ? (l[0]*v[0] + l[1]*v[1]) / (sl*sv) : UNDEF;
    q["sd"] = ld ? q["det"] / (sl*sv) : UNDEF;
    double hp = ho ? hypot(h[0], h[1]) : 0;
    if (hp > 1e-2) {
        double cp = h[0]/hp, sp = h[1]/hp;
        q["dx"] = h[2]*(cp*v[0] + sp*v[1]) - hp*v[2];
        q["dy"] = -sp*v[0] + cp*v[1];
    } else q["dx"] = q["dy"] = UNDEF;
    return q;
}

static void pair(Q& q, const char* c, const char* s, double r, double phi, bool defined) {
    q[c] = defined ? r * cos(phi) : UNDEF; q[s] = defined ? r * sin(phi) : UNDEF;
}
// The quantities the values p of parametrization t stand for.
static Q reading(params::input t, const double* p) {
    Q q;
    switch (t) {
    case params::COS_TH: q["hz"] = p[0]; break;
    case params::COS_TK: q["kz"] = p[0]; break;
    case params::COS_TLV: q["lv"] = p[0]; break;
    case params::COS_TLR: q["lr"] = p[0]; break;
    case params::COS_TH_TD: q["hz"] = p[0]; q["hd"] = p[1]; break;
    case params::RUSIN_TH_TD: q["hz"] = cos(p[0]); q["hd"] = cos(p[1]); break;
    case params::ISOTROPIC_TV_PROJ_DPHI: {
        double th = hypot(p[0], p[1]), f = th > 0 ? sin(th)/th : 0;
        q["vz"] = cos(th); q["px"] = f*p[0]; q["py"] = f*p[1]; break; }
    case params::STARK_2D: q["Hp"] = p[0]; q["B"] = p[1]; break;
    case params::NEUMANN_2D: q["Hp"] = p[0]; q["Bp"] = p[1]; break;
    case params::STARK_3D: q["Hp"] = p[0]; q["B"] = p[1]; pair(q, "cbh", "sbh", 1, p[2], p[0] > 1e-2 && p[1] > 1e-2); break;
    case params::NEUMANN_3D: q["Hp"] = p[0]; q["Bp"] = p[1]; pair(q, "cbh", "sbh", 1, p[2], p[0] > 1e-2 && p[1] > 1e-2); break;
    case params::RUSIN_TH_PH_TD_PD:
        pair(q, "dx", "dy", sin(p[2]), p[3], sin(p[0]) > 1e-2);  // and:
    case params::RUSIN_TH_PH_TD:
        q["hx"] = sin(p[0])*cos(p[1]); q["hy"] = sin(p[0])*sin(p[1]); q["hz"] = cos(p[0]); q["hd"] = cos(p[2]); break;
    case params::RUSIN_TH_TD_PD: q["hz"] = cos(p[0]); q["hd"] = cos(p[1]); pair(q, "dx", "dy", sin(p[1]), p[2], sin(p[0]) > 1e-2); break;
    case params::ISOTROPIC_TV_TL_DPHI: q["vz"] = cos(p[0]); q["lz"] = cos(p[1]); pair(q, "cd", "sd", 1, -p[2], sin(p[0]) > 1e-2 && sin(p[1]) > 1e-2); break;
    case params::RUSIN_VH: q["hx"] = p[0]; q["hy"] = p[1]; q["hz"] = p[2]; break;
    case params::SCHLICK_VK: q["kx"] = p[0]; q["ky"] = p[1]; q["kz"] = p[2]; break;
    case params::ISOTROPIC_TL_TV_PROJ_DPHI: {
        double th = hypot(p[1], p[2]), f = th > 0 ? sin(th)/th : 0;
        q["lz"] = cos(p[0]); q["vz"] = cos(th); q["px"] = f*p[1]; q["py"] = f*p[2]; break; }
    case params::SCHLICK_TL_TK_PROJ_DPHI: q["lz"] = cos(p[0]); q["kz"] = cos(hypot(p[1], p[2])); break;
    case params::RETRO_TL_TVL_PROJ_DPHI: q["lz"] = cos(p[0]); q["lv"] = cos(hypot(p[1], p[2])); break;
    case params::SPHERICAL_TL_PL_TV_PV:
        q["lx"] = sin(p[0])*cos(p[1]); q["ly"] = sin(p[0])*sin(p[1]); q["lz"] = cos(p[0]);
        q["vx"] = sin(p[2])*cos(p[3]); q["vy"] = sin(p[2])*sin(p[3]); q["vz"] = cos(p[2]); break;
    case params::STEREOGRAPHIC: {
        double n = p[0]*p[0] + p[1]*p[1], m = p[2]*p[2] + p[3]*p[3];
        q["vx"] = 2*p[0]/(1+n); q["vy"] = 2*p[1]/(1+n); q["vz"] = (1-n)/(1+n);
        q["lx"] = 2*p[2]/(1+m); q["ly"] = 2*p[3]/(1+m); q["lz"] = (1-m)/(1+m); break; }
    case params::CARTESIAN: q = quantities(p); break;
    default: break;
    }
    return q;
}
static const char* KEYS[] = {"vx","vy","vz","lx","ly","lz","lv","det","hx","hy","hz","hd","kx","ky","kz","lr","Hp","Bp","B","cbh","sbh","px","py","cd","sd","dx","dy",0};
static const long UNDEFI = 2147483646;
static std::string enc(double v) {
    if (v == UNDEF) return std::to_string(UNDEFI);
    if (!(std::fabs(v) < 1000)) return "2147483647";
    return std::to_string((long)std::nearbyint(v * S));
}
static std::string jq(const Q& q) {
    std::string s = "{"; bool f = true;
    for (int i = 0; KEYS[i]; ++i) {
        Q::const_iterator it = q.find(KEYS[i]);
        if (it == q.end()) continue;
        if (!f) s += ","; f = false;
        s += jstr(KEYS[i]) + ":" + enc(it->second);
    }
    return s + "}";
}

static void run(const std::vector<words>& cmds) {
    params::input cur = params::CARTESIAN;
    std::vector<double> p(6, 0.0);
    for (const words& w : cmds) {
        if (w[0] == "registry") {
            for (int i = 0; i <= (int)params::UNKNOWN_INPUT; ++i) {
                const std::string n = params::get_name((params::input)i);
                Ev("Input").num("i", i).str("name", n).num("parsed", (long)params::parse_input(n)).num("dim", params::dimension((params::input)i)).flag("last", i == (int)params::UNKNOWN_INPUT).emit();
            }
            for (int i = 0; i < (int)params::UNKNOWN_OUTPUT; ++i) {
                const std::string n = params::get_name((params::output)i);
                Ev("Output").num("i", i).str("name", n).num("parsed", (long)params::parse_output(n)).num("dim", params::dimension((params::output)i)).emit();
            }
        } else if (w[0] == "name") {
            params::input t = params::parse_input(unesc(w[1]));
            Ev("Parse").str("txt", unesc(w[1])).flag("known", t != params::UNKNOWN_INPUT).str("back", params::get_name(t)).emit();
        } else if (w[0] == "cfg") {   // cfg vx vy vz lx ly lz, or cfg angles tv pv tl pl
            if (w[1] == "angles") {
                double tv = num(w[2]), pv = num(w[3]), tl = num(w[4]), pl = num(w[5]);
                double c[6] = {sin(tv)*cos(pv), sin(tv)*sin(pv), cos(tv), sin(tl)*cos(pl), sin(tl)*sin(pl), cos(tl)};
                if (c[2] < 0) c[2] = 0; if (c[5] < 0) c[5] = 0;
                p.assign(c, c + 6);
            } else for (int i = 0; i < 6; ++i) p[i] = num(w[1 + i]);
            cur = params::CARTESIAN;
            Ev("Config").raw("q", jq(quantities(&p[0]))).emit();
        } else if (w[0] == "conv") {   // conv P
            params::input t = params::parse_input(w[1]);
            const int N = 12;
            double sent = -123.4567890123e+45;
            std::vector<double> in(N, NAN), out(N, sent);
            for (size_t i = 0; i < p.size(); ++i) in[i] = p[i];
            params::convert(&in[0], cur, t, &out[0]);
            int n = N; while (n > 0 && out[n-1] == sent) --n;
            double cart[6] = {0}, again[N];
            std::vector<double> o2(N, NAN);
            for (int i = 0; i < n; ++i) o2[i] = out[i];
            params::convert(&o2[0], t, params::CARTESIAN, cart);
            for (int i = 0; i < N; ++i) again[i] = NAN;
            params::convert(cart, params::CARTESIAN, t, again);
            Ev("Conv").str("p", w[1]).num("n", n).raw("q", jq(quantities(cart))).raw("r", jq(reading(t, &out[0]))).raw("r2", jq(reading(t, again))).emit();
            p.assign(out.begin(), out.begin() + n);
            cur = t;
        } else if (w[0] == "outconv") {   // outconv outdim v1.. (in values are multiples of 1/8)
            int od = atoi(w[1].c_str()), id = (int)w.size() - 2;
            std::vector<double> in(id), out(od + 2, 5.0);
            for (int i = 0; i < id; ++i) in[i] = num(w[2 + i]) / 8;
            params::convert(&in[0], params::UNKNOWN_OUTPUT, id, params::UNKNOWN_OUTPUT, od, &out[0]);
            std::string iv = jarr(in, id, [](double v) { return sc(v, 96); }), ov = jarr(out, od, [](double v) { return sc(v, 96); });
            Ev("OutConv").raw("in", iv).raw("out", ov).flag("clean", out[od] == 5.0 && out[od + 1] == 5.0).emit();
        } else if (w[0] == "above") {
            vec c(p.size()); for (size_t i = 0; i < p.size(); ++i) c[i] = p[i];
            Ev("Above").flag("above", params::is_above_hemisphere(&c[0], cur)).flag("below", params::is_below_hemisphere(&c[0], cur)).emit();
        }
    }
}
int main(int argc, char** argv) { return main_loop(argc, argv, run); }

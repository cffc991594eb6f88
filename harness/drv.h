// Common parts of the conformance drivers: scenario loop (one forked child per
// scenario), JSON event output, exact encodings of doubles.
#pragma once
#include <cmath>
#include <climits>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <time.h>
#include <unistd.h>

namespace drv {

static FILE* ev_file = NULL;
static std::string scratch;     // a private directory for files

typedef std::vector<std::string> words;

inline words split(const std::string& s) {
    words w; std::istringstream is(s); std::string t;
    while (is >> t) w.push_back(t);
    return w;
}

inline std::string jstr(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\t') r += "\\t";
        else if (c == '\n') r += "\\n";
        else if (c == '\r') r += "\\r";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "~%02x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

// An opaque exact token for a double.
inline std::string tok(double v) {
    char b[64];
    if (v != v) return "\"nan\"";
    snprintf(b, sizeof b, "%a", v);
    return std::string("\"") + b + "\"";
}

// v * scale as an integer; a sentinel if it is not (nearly) one or does not fit.
static const int NOTINT = 2147483647;
inline long sci(double v, double scale, double tol = 1e-6) {
    double x = v * scale;
    if (!(std::fabs(x) < 2.0e9)) return NOTINT;
    double r = std::nearbyint(x);
    if (std::fabs(x - r) > tol * (1.0 + std::fabs(x) * 1e-3)) return NOTINT - 1;
    return (long)r;
}
inline std::string sc(double v, double scale, double tol = 1e-6) { return std::to_string(sci(v, scale, tol)); }
// v * scale rounded to the nearest integer (for toleranced comparisons in the specification)
inline std::string rnd(double v, double scale) {
    double x = v * scale;
    if (!(std::fabs(x) < 2.0e9)) return std::to_string(NOTINT);
    return std::to_string((long)std::nearbyint(x));
}

template<class V, class F> std::string jarr(const V& v, int n, F f) {
    std::string s = "[";
    for (int i = 0; i < n; ++i) { if (i) s += ","; s += f(v[i]); }
    return s + "]";
}

struct Ev {
    std::string s;
    Ev(const std::string& name) { s = "{\"ev\":" + jstr(name); }
    Ev& raw(const std::string& k, const std::string& v) { s += "," + jstr(k) + ":" + v; return *this; }
    Ev& str(const std::string& k, const std::string& v) { return raw(k, jstr(v)); }
    Ev& num(const std::string& k, long v) { return raw(k, std::to_string(v)); }
    Ev& flag(const std::string& k, bool v) { return raw(k, v ? "true" : "false"); }
    void emit() { fprintf(ev_file, "%s}\n", s.c_str()); fflush(ev_file); }
};

// Decode "~xx" escapes of scenario words (so words may hold any byte; "~" alone is the empty string).
inline std::string unesc(const std::string& s) {
    if (s == "~") return "";
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '~' && i + 2 < s.size()) { r += (char)strtol(s.substr(i + 1, 2).c_str(), 0, 16); i += 2; }
        else r += s[i];
    }
    return r;
}

inline double num(const std::string& s) { return strtod(s.c_str(), 0); }

// file: "scenario <name> <begin-json>" then command lines.
inline int main_loop(int argc, char** argv,
                     std::function<void(const std::vector<words>&)> run) {
    if (argc < 4) return 2;
    scratch = argv[3];
    int tmo = argc > 4 ? atoi(argv[4]) : 60;
    std::ifstream in(argv[1]);
    std::vector<std::pair<std::string, std::vector<words> > > all;
    std::string line;
    while (std::getline(in, line)) {
        if (line.compare(0, 9, "scenario ") == 0) all.push_back(std::make_pair(line.substr(9), std::vector<words>()));
        else if (!all.empty() && !line.empty()) all.back().second.push_back(split(line));
    }
    int kills = 0;
    for (size_t k = 0; k < all.size(); ++k) {
        if (kills == 4) {       // the code hangs: that is known by now
            FILE* f = fopen(argv[2], "a"); fprintf(f, "\n{\"ev\":\"Stopped\"}\n"); fclose(f);
            break;
        }
        pid_t pid = fork();
        if (pid == 0) {
            setpgid(0, 0); prctl(PR_SET_PDEATHSIG, SIGKILL);   // no child outlives the driver
            ev_file = fopen(argv[2], "a");
            fprintf(ev_file, "%s\n", all[k].first.c_str()); fflush(ev_file);
            int nul = open("/dev/null", O_WRONLY);
            dup2(nul, 1);
            if (!getenv("DRV_STDERR")) dup2(nul, 2);
            run(all[k].second);
            fclose(ev_file);
            _exit(0);
        }
        int st = 0; double waited = 0; bool killed = false;
        useconds_t step = 200;
        while (true) {
            pid_t r = waitpid(pid, &st, WNOHANG);
            if (r == pid) break;
            if (waited > tmo) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); killed = true; break; }
            usleep(step); waited += step * 1e-6;
            if (step < 20000) step = step * 3 / 2;
        }
        kill(-pid, SIGKILL);
        FILE* f = fopen(argv[2], "a");
        if (killed) { ++kills; if (tmo > 10) tmo = 10; }
        if (killed) fprintf(f, "\n{\"ev\":\"Crash\",\"how\":\"timeout\"}\n");
        else if (!WIFEXITED(st) || WEXITSTATUS(st) != 0)
            fprintf(f, "\n{\"ev\":\"Crash\",\"how\":\"%s %d\"}\n", WIFSIGNALED(st) ? "signal" : "exit",
                    WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
        fclose(f);
    }
    return 0;
}
}

// Running the command line tools of the current build.
#pragma once
#include "drv.h"
namespace drv {
// Run a tool in a directory of its own; returns its exit status, 1000 + signal, or 9999 if it does not end.
inline int tool(const std::vector<std::string>& argv, const std::string& dir, const std::string& log, int tmo = 60,
                const std::vector<std::string>& env = {}, int uid = -1) {
    pid_t pid = fork();
    if (pid == 0) {
        setpgid(0, 0);
        if (!dir.empty() && chdir(dir.c_str())) _exit(126);
        int fd = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
        if (fd < 0) fd = open("/dev/null", O_WRONLY);
        dup2(fd, 1); dup2(fd, 2);
        int nul = open("/dev/null", O_RDONLY); dup2(nul, 0);
        for (size_t i = 0; i < env.size(); ++i) putenv(strdup(env[i].c_str()));
        if (uid >= 0 && (setgid(uid) || setuid(uid))) _exit(126);
        std::string path = std::string(getenv("ALTA_SOFTS")) + "/" + argv[0];
        std::vector<char*> a;
        for (size_t i = 0; i < argv.size(); ++i) a.push_back(const_cast<char*>(argv[i].c_str()));
        a.push_back(NULL);
        execv(path.c_str(), a.data());
        _exit(127);
    }
    int st = 0; double waited = 0; useconds_t step = 200;
    while (true) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (waited > tmo) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); return 9999; }
        usleep(step); waited += step * 1e-6;
        if (step < 10000) step = step * 3 / 2;
    }
    kill(-pid, SIGKILL);
    return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}
}

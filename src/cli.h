// parted's command line front end, linked into the harness (main renamed) and run in a forked
// child against the in-memory device: one call is one invocation of the program.
#pragma once
#include "hist.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <getopt.h>
#include <signal.h>
#include <sys/time.h>
#include <unistd.h>
#include <wchar.h>
extern "C" int parted_main(int argc, char **argv);

struct CliRun {
    int status = -1, sig = 0;
    bool hang = false, crash = false;
    std::string out, err;
    int fired = 0;
    size_t writes = 0;
    bool asked = false;   // read from standard input
};
static int g_cli_fd = -1;
static std::vector<MemDev *> g_cli_devs;
static void cli_exit(int status, void *) {
    fflush(stdout);
    fflush(stderr);
    std::string b;
    auto p64 = [&](uint64_t v) { b.append((char *)&v, 8); };
    p64(0x1234567890abcdefull);
    p64(det_rng());
    for (MemDev *m : g_cli_devs) {
        p64(m->fired);
        p64(m->log.size());
        for (auto &w : m->log) {
            p64(w.sync); p64(w.start); p64(w.count); p64(w.data.size());
            b.append((char *)w.data.data(), w.data.size());
        }
    }
    for (size_t i = 0; i < b.size();) {
        ssize_t n = write(g_cli_fd, b.data() + i, b.size() - i);
        if (n <= 0) break;
        i += n;
    }
    _exit(status & 0xff);
}
static std::string cli_slurp(int fd) {
    std::string s;
    char buf[65536];
    lseek(fd, 0, SEEK_SET);
    ssize_t n;
    while ((n = read(fd, buf, sizeof buf)) > 0) s.append(buf, n);
    close(fd);
    return s;
}
// one invocation of parted; the devices must not be open in the harness
static CliRun cli_run(Ctx &c, std::vector<MemDev *> devs, const std::vector<std::string> &args, const std::string &input = "", int secs = 20) {
    CliRun r;
    std::string line = "$ parted";
    for (auto &a : args) line += " " + (a.find_first_of(" '\"\\\n") == std::string::npos && !a.empty() ? a : "[" + a + "]");
    c.note("%s%s", line.c_str(), input.empty() ? "" : fmt("   <<< %s", input.c_str()).c_str());
    int fi = memfd_create("in", 0), fo = memfd_create("out", 0), fe = memfd_create("err", 0), fl = memfd_create("log", 0);
    if (write(fi, input.data(), input.size()) < 0) {}
    lseek(fi, 0, SEEK_SET);
    fflush(stdout);
    fflush(stderr);
    ped_device_free_all();
    pid_t pid = fork();
    if (pid == 0) {
        dup2(fi, 0); dup2(fo, 1); dup2(fe, 2);
        for (int s : {SIGINT, SIGTERM, SIGALRM, SIGPROF, SIGVTALRM, SIGSEGV, SIGFPE, SIGILL, SIGPIPE, SIGCHLD}) signal(s, SIG_DFL);
        struct itimerval off = {};
        setitimer(ITIMER_PROF, &off, nullptr);
        setitimer(ITIMER_VIRTUAL, &off, nullptr);
        setitimer(ITIMER_REAL, &off, nullptr);
        sigset_t ss;
        sigemptyset(&ss);
        sigprocmask(SIG_SETMASK, &ss, nullptr);
        alarm(secs);
        setenv("LC_ALL", "C.UTF-8", 1);
        setenv("TERM", "dumb", 1);
        unsetenv("LANGUAGE");
        g_cli_fd = fl;
        g_cli_devs = devs;
        for (MemDev *m : devs) { m->log.clear(); m->logging = true; m->read_limit = 0; }
        ped_unit_set_default(PED_UNIT_COMPACT);
        on_exit(cli_exit, nullptr);
        optind = 0;
        std::vector<std::string> st = {"parted"};
        st.insert(st.end(), args.begin(), args.end());
        std::vector<char *> av;
        for (auto &a : st) av.push_back(strdup(a.c_str()));
        int n = (int)av.size();
        av.push_back(nullptr);
        exit(parted_main(n, av.data()));
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    r.out = cli_slurp(fo);
    r.err = cli_slurp(fe);
    r.asked = lseek(fi, 0, SEEK_CUR) > 0;
    close(fi);
    std::string lg = cli_slurp(fl);
    if (WIFSIGNALED(st)) { r.sig = WTERMSIG(st); r.hang = r.sig == SIGALRM; r.crash = !r.hang; }
    else r.status = WEXITSTATUS(st);
    if (r.status == 77 || r.err.find("Sanitizer") != std::string::npos || r.err.find("runtime error:") != std::string::npos) r.crash = true;
    size_t at = 0;
    auto g64 = [&]() { uint64_t v = 0; if (at + 8 <= lg.size()) memcpy(&v, &lg[at], 8); at += 8; return v; };
    if (!r.crash && !r.hang) {
        if (g64() != 0x1234567890abcdefull) r.crash = true;
        det_rng() = g64();
        for (MemDev *m : devs) {
            r.fired += (int)g64();
            uint64_t n = g64();
            m->log.clear();
            for (uint64_t i = 0; i < n; i++) {
                WriteOp w;
                w.sync = g64(); w.start = g64(); w.count = g64();
                uint64_t l = g64();
                w.data.assign(lg.begin() + at, lg.begin() + at + l);
                at += l;
                if (!w.sync) { m->write(w.start, w.data); r.writes++; }
                m->log.push_back(std::move(w));
            }
        }
    }
    if (!r.crash && !r.hang)
        c.note("   -> exit %d%s%s", r.status, r.err.empty() ? "" : ", ", r.err.substr(0, 300).c_str());
    return r;
}
static void cli_alive(Ctx &c, const char *id, const CliRun &r) {
    if (r.hang) c.fail(fmt("%s:hang", id).c_str(), "parted does not terminate; output so far: %s", r.out.substr(0, 500).c_str());
    if (r.crash) {
        std::string e = r.err;
        size_t p = e.find("ERROR: AddressSanitizer");
        if (p == std::string::npos) p = e.find("runtime error:");
        if (p != std::string::npos && p > 200) e = e.substr(p - 200);
        c.fail(fmt("%s:crash", id).c_str(), "parted crashes (status %d, signal %d): %s", r.status, r.sig, e.substr(0, 2500).c_str());
    }
}
// a word as the command line parser reads it back
static std::string cli_quote(const std::string &s) {
    if (!s.empty() && s.find_first_of(" '\"\\") == std::string::npos) return s;
    std::string r = "\"";
    for (char ch : s) {
        if (ch == '"' || ch == '\\') r += '\\';
        r += ch;
    }
    return r + "\"";
}

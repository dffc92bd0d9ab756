// Running the installed file-system tools on scratch files.
#pragma once
#include <fcntl.h>
#include <map>
#include <string>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
#include <cstring>
#include <cstdint>
#include <algorithm>

static int run_tool(const std::vector<std::string> &a, std::string *out = nullptr) {
    int p[2];
    if (pipe2(p, O_CLOEXEC)) return -1;
    pid_t pid = fork();
    if (!pid) {
        std::vector<char *> v;
        for (auto &x : a) v.push_back((char *)x.c_str());
        v.push_back(nullptr);
        dup2(p[1], 1);
        dup2(p[1], 2);
        int n = open("/dev/null", O_RDONLY);
        dup2(n, 0);
        setenv("PATH", "/usr/sbin:/usr/bin:/sbin:/bin", 1);
        unsetenv("ASAN_OPTIONS");
        execvp(v[0], v.data());
        _exit(127);
    }
    close(p[1]);
    char b[4096];
    ssize_t n;
    while ((n = read(p[0], b, sizeof b)) > 0) if (out) out->append(b, n);
    close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    return WIFEXITED(st) ? WEXITSTATUS(st) : 255;
}

struct Scratch {
    char dir[40] = "/tmp/pbtfs.XXXXXX";
    std::string file;
    Scratch() { if (!mkdtemp(dir)) { perror("mkdtemp"); _exit(3); } file = std::string(dir) + "/x"; }
    ~Scratch() { unlink(file.c_str()); rmdir(dir); }
};


// the non-zero sectors of a file
static void load_sparse(int fd, uint64_t sz, std::map<uint64_t, std::vector<uint8_t>> &sec) {
    std::vector<uint8_t> buf(1 << 16);
    off_t p = 0;
    while (p < (off_t)sz) {
        off_t d = lseek(fd, p, SEEK_DATA);
        if (d < 0) break;
        off_t h = lseek(fd, d, SEEK_HOLE);
        if (h < 0) h = sz;
        d = d / 512 * 512;
        for (off_t q = d; q < h;) {
            ssize_t n = pread(fd, buf.data(), std::min<off_t>(buf.size(), h - q), q);
            if (n <= 0) break;
            static const uint8_t z[512] = {};
            for (ssize_t i = 0; i < n; i += 512) {
                size_t l = std::min<ssize_t>(512, n - i);
                if (memcmp(&buf[i], z, l)) { auto &v = sec[(q + i) / 512]; v.assign(512, 0); memcpy(v.data(), &buf[i], l); }
            }
            q += n;
        }
        p = h;
    }
}

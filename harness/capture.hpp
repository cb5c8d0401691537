// Everything the code writes to standard output, however it does.
#pragma once
#include <fcntl.h>
#include <iostream>
#include <string>
#include <sys/mman.h>
#include <unistd.h>

inline std::string captured() {
    static int fd = -1;
    fflush(stdout);
    std::cout.flush();
    std::string r;
    if (fd < 0) {
        fd = memfd_create("out", 0);
        if (fd < 0 || fcntl(fd, F_SETFL, O_APPEND) < 0 || dup2(fd, 1) < 0) _exit(95);
        return r;
    }
    char buf[4096];
    ssize_t n;
    off_t at = 0;
    while ((n = pread(fd, buf, sizeof buf, at)) > 0) {
        r.append(buf, n);
        at += n;
    }
    if (ftruncate(fd, 0) != 0) _exit(95);
    return r;
}

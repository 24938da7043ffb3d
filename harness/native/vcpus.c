/* a process that believes it may run on other CPUs than it does: VCPUS is a list of CPU numbers and ranges "0-3,70" */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <sched.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>
int sched_getaffinity(pid_t pid, size_t size, cpu_set_t *set) {
    const char *e = getenv("VCPUS");
    if (!e) {
        int (*real)(pid_t, size_t, cpu_set_t *) = dlsym(RTLD_NEXT, "sched_getaffinity");
        return real(pid, size, set);
    }
    CPU_ZERO_S(size, set);
    while (*e) {
        char *end;
        long a = strtol(e, &end, 10), b = a;
        if (*end == '-') b = strtol(end + 1, &end, 10);
        for (; a <= b; a++) CPU_SET_S(a, size, set);
        e = *end ? end + 1 : end;
        if (end == e && *e) break;
    }
    return 0;
}
/* the workers may not really move to CPUs that are not there */
int sched_setaffinity(pid_t pid, size_t size, const cpu_set_t *set) {
    if (!getenv("VCPUS")) return (int)syscall(SYS_sched_setaffinity, pid, size, set);
    return 0;
}

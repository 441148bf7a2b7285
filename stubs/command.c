/* The simulated cargo and tput of the maintenance scripts: cargo asks the simulator what becomes of it. */
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static char line[1 << 12];

int main(int argc, char **argv) {
    const char *name = strrchr(argv[0], '/') ? strrchr(argv[0], '/') + 1 : argv[0];
    const char *lab = getenv("LAB");
    if (!lab) return 125;
    if (!strcmp(name, "tput")) return getenv("NO_TERMINAL") != NULL;
    char path[4096];
    if (!getcwd(line, 1024)) return 125;
    size_t n = strlen(line);
    for (int i = 1; i < argc && n + strlen(argv[i]) + 3 < sizeof line; i++) {
        line[n++] = '\x1f';
        strcpy(line + n, argv[i]);
        n += strlen(argv[i]);
    }
    for (size_t i = 0; i < n; i++)
        if (line[i] == '\n') line[i] = '\x1e';
    line[n++] = '\n';
    snprintf(path, sizeof path, "%s/requests", lab);
    int q = open(path, O_WRONLY);
    if (q < 0 || write(q, line, n) != (ssize_t)n) return 125;
    snprintf(path, sizeof path, "%s/answers", lab);
    int a = open(path, O_RDONLY);
    unsigned char c;
    if (a < 0 || read(a, &c, 1) != 1) return 125;
    if (c == 255) raise(SIGKILL);
    return c;
}

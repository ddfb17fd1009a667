/* Stand-in for gofmt -s -w DIR: rewrites every .go file below DIR in place (trailing blanks removed,
 * runs of empty lines collapsed). GOFMT_MODE: ok, fail (before anything), half (after half the files),
 * killed. */
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

static char *files[20000];
static int n;

static void walk(const char *dir) {
    DIR *d = opendir(dir);
    if (!d) { perror(dir); exit(2); }
    struct dirent *e;
    while (errno = 0, (e = readdir(d))) {
        if (e->d_name[0] == '.') continue;
        char p[4096];
        snprintf(p, sizeof p, "%s/%s", dir, e->d_name);
        struct stat s;
        if (stat(p, &s) < 0) { perror(p); exit(2); }
        if (S_ISDIR(s.st_mode)) walk(p);
        else if (strlen(p) > 3 && strcmp(p + strlen(p) - 3, ".go") == 0 && n < 20000) files[n++] = strdup(p);
    }
    if (errno) { perror(dir); exit(2); }
    closedir(d);
}

static int cmp(const void *a, const void *b) { return strcmp(*(char *const *)a, *(char *const *)b); }

static void format(const char *p) {
    int fd;
    while ((fd = open(p, O_RDONLY)) < 0 && errno == EINTR) {}
    struct stat s;
    if (fd < 0 || fstat(fd, &s) < 0) { perror(p); exit(2); }
    char *in = malloc((size_t)s.st_size + 1), *out = malloc((size_t)s.st_size + 2);
    ssize_t have = 0, r;
    while ((r = read(fd, in + have, (size_t)(s.st_size - have))) > 0 || (r < 0 && errno == EINTR)) have += r > 0 ? r : 0;
    close(fd);
    if (r < 0) { perror(p); exit(2); }
    size_t o = 0;
    for (ssize_t i = 0; i < have; i++) {
        if (in[i] == '\n') {
            while (o > 0 && (out[o - 1] == ' ' || out[o - 1] == '\t')) o--;
            if (o >= 2 && out[o - 1] == '\n' && out[o - 2] == '\n') continue;
        }
        out[o++] = in[i];
    }
    while (o > 0 && out[o - 1] == '\n') o--;
    out[o++] = '\n';
    if ((ssize_t)o != have || memcmp(in, out, o) != 0) {
        while ((fd = open(p, O_WRONLY | O_TRUNC)) < 0 && errno == EINTR) {}
        if (fd < 0) { perror(p); exit(2); }
        for (size_t w = 0; w < o;) {
            r = write(fd, out + w, o - w);
            if (r < 0 && errno == EINTR) continue;
            if (r < 0) { perror(p); exit(2); }
            w += (size_t)r;
        }
        close(fd);
    }
    free(in);
    free(out);
}

int main(int argc, char **argv) {
    const char *mode = getenv("GOFMT_MODE");
    if (!mode) mode = "ok";
    int in_place = 0;
    const char *path = 0;
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "-w")) in_place = 1;
        else if (argv[i][0] != '-') path = argv[i];
    }
    if (!in_place || !path) { fprintf(stderr, "unexpected arguments\n"); return 3; }
    if (!strcmp(mode, "fail")) { fprintf(stderr, "gofmt failed\n"); return 2; }
    if (!strcmp(mode, "killed")) raise(SIGKILL);
    struct stat s;
    if (stat(path, &s) < 0) { perror(path); return 2; }
    walk(path);
    qsort(files, (size_t)n, sizeof *files, cmp);
    for (int i = 0; i < n; i++) {
        if (!strcmp(mode, "half") && i >= n / 2) { fprintf(stderr, "gofmt failed half-way\n"); return 2; }
        format(files[i]);
    }
    if (!strcmp(mode, "half")) return 2;
    return 0;
}

/* Stand-in for a command run by the launcher: asks the scheduler before each step. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>

static int sock = -1;
static const char *partial; /* removed by a compiler that fails (not by one that is killed) */

/* Reports a step and waits for the decision: 'g' go on, 'f' fail, 'k' die. */
static void step(const char *what, const char *arg) {
  char buf[4600], r = 0;
  if (sock < 0) {
    struct sockaddr_un a = {.sun_family = AF_UNIX};
    const char *p = getenv("GATE_SOCK");
    if (!p) _exit(125);
    strncpy(a.sun_path, p, sizeof a.sun_path - 1);
    sock = socket(AF_UNIX, SOCK_SEQPACKET | SOCK_CLOEXEC, 0);
    if (sock < 0 || connect(sock, (void *)&a, sizeof a)) _exit(126);
  }
  snprintf(buf, sizeof buf, "%s\t%s\t%.4000s", getenv("GATE_ID"), what, arg);
  if (send(sock, buf, strlen(buf), 0) < 0 || recv(sock, &r, 1, 0) != 1) raise(SIGKILL);
  if (r == 'k') raise(SIGKILL);
  if (r == 'f') {
    fprintf(stderr, "%s: simulated failure\n", what);
    if (partial) unlink(partial);
    _exit(1);
  }
}

static int same(const char *path, const char *want) {
  char a[65536], b[65536];
  int f = open(path, O_RDONLY), g = open(want, O_RDONLY), ok = f >= 0 && g >= 0;
  while (ok) {
    ssize_t n = read(f, a, sizeof a), m = read(g, b, sizeof b);
    if (n != m || n < 0 || memcmp(a, b, n)) ok = 0;
    if (n <= 0) break;
  }
  close(f);
  close(g);
  return ok;
}

static int compile(int argc, char **argv) {
  const char *out = "a.out";
  int main_src = 0, opt_src = 0;
  step("gcc", "start");
  for (int i = 1; i < argc; i++) {
    if (!strcmp(argv[i], "-o") && i + 1 < argc) out = argv[++i];
    else if (!strncmp(argv[i], "-o", 2) && argv[i][2]) out = argv[i] + 2;
    else if (argv[i][0] == '-') continue;
    else if (same(argv[i], getenv("GATE_SRC1"))) main_src = 1;
    else if (same(argv[i], getenv("GATE_SRC2"))) opt_src = 1;
    else if (access(argv[i], R_OK)) {
      fprintf(stderr, "gcc: error: %s: No such file or directory\n", argv[i]);
      return 1;
    }
  }
  if (!main_src || !opt_src) {
    fprintf(stderr, "gcc: undefined reference\n");
    return 1;
  }
  unlink(out); /* as ld does */
  partial = out;
  int f = open(getenv("GATE_PROG"), O_RDONLY), g = open(out, O_WRONLY | O_CREAT | O_TRUNC, 0666);
  struct stat st;
  if (f < 0 || g < 0 || fstat(f, &st)) {
    fprintf(stderr, "ld: cannot open output file %s: %s\n", out, strerror(errno));
    return 1;
  }
  char *m = malloc(st.st_size);
  if (read(f, m, st.st_size) != st.st_size) return 1;
  long half = st.st_size / 2;
  if (write(g, m, half) != half) return 1;
  step("gcc", "half");
  if (write(g, m + half, st.st_size - half) != st.st_size - half) return 1;
  step("gcc", "written");
  fchmod(g, 0755);
  close(g);
  step("gcc", "end");
  return 0;
}

static int put(int g, const char *m, long n) {
  while (n > 0) {
    ssize_t k = write(g, m, n);
    if (k <= 0) return -1;
    m += k;
    n -= k;
  }
  return 0;
}

/* A copy is not atomic: cp, install, and mv from the temporary directory (which may be another file system) write
   their target in two parts. Returns -1 for the forms left to the real command. */
static int copy(int argc, char **argv, const char *name) {
  const char *arg[2], *tmp = getenv("TMPDIR");
  int n = 0, force = 0, keep = 0, fresh = !strcmp(name, "install") || !strcmp(name, "mv"), mode = -1;
  for (int i = 1; i < argc; i++) {
    const char *a = argv[i];
    if (!strcmp(a, "--")) continue;
    if (!strcmp(a, "-f") || !strcmp(a, "--force")) force = 1;
    else if (!strcmp(a, "-p") && strcmp(name, "install")) keep = 1;
    else if (!strcmp(a, "--remove-destination")) fresh = 1;
    else if (!strcmp(a, "-m") && !strcmp(name, "install") && i + 1 < argc) mode = strtol(argv[++i], 0, 8);
    else if (!strncmp(a, "-m", 2) && !strcmp(name, "install")) mode = strtol(a + 2, 0, 8);
    else if (a[0] == '-') return -1;
    else if (n < 2) arg[n++] = a;
    else return -1;
  }
  struct stat st, old;
  if (n != 2 || stat(arg[0], &st) || !S_ISREG(st.st_mode)) return -1;
  int exists = !stat(arg[1], &old);
  if (exists && (!S_ISREG(old.st_mode) || (old.st_ino == st.st_ino && old.st_dev == st.st_dev))) return -1;
  if (!strcmp(name, "mv")) {
    char *r = realpath(arg[0], 0);
    if (!r || !tmp || strncmp(r, tmp, strlen(tmp)) || r[strlen(tmp)] != '/') return -1;
    keep = 1;
  }
  if (!strcmp(name, "install") && mode < 0) mode = 0755;
  char *m = malloc(st.st_size + 1);
  int f = open(arg[0], O_RDONLY);
  if (f < 0 || read(f, m, st.st_size) != st.st_size) return -1;
  if (fresh) unlink(arg[1]);
  int g = open(arg[1], O_WRONLY | O_CREAT | O_TRUNC, mode >= 0 ? 0600 : st.st_mode & 0777);
  if (g < 0 && force && !unlink(arg[1])) g = open(arg[1], O_WRONLY | O_CREAT | O_TRUNC, st.st_mode & 0777);
  if (g < 0) {
    fprintf(stderr, "%s: cannot create regular file '%s': %s\n", name, arg[1], strerror(errno));
    return 1;
  }
  long half = st.st_size / 2;
  if (put(g, m, half)) return 1;
  step(name, "half");
  if (put(g, m + half, st.st_size - half)) return 1;
  if (mode >= 0) fchmod(g, mode);
  else if (keep) fchmod(g, st.st_mode & 07777);
  close(g);
  if (!strcmp(name, "mv")) unlink(arg[0]);
  step(name, "end");
  return 0;
}

int main(int argc, char **argv) {
  const char *name = strrchr(argv[0], '/');
  name = name ? name + 1 : argv[0];
  if (!strcmp(name, "gcc") || !strcmp(name, "cc") || !strcmp(name, "clang") || !strcmp(name, "c99")) return compile(argc, argv);
  step(name, "");
  if (!strcmp(name, "sleep")) return 0;
  if (!strcmp(name, "cp") || !strcmp(name, "install") || !strcmp(name, "mv")) {
    int r = copy(argc, argv, name);
    if (r >= 0) return r;
  }
  const char *dirs[] = {"/usr/local/bin", "/usr/bin", "/bin", 0};
  char path[300];
  for (int i = 0; dirs[i]; i++) {
    snprintf(path, sizeof path, "%s/%s", dirs[i], name);
    if (!access(path, X_OK)) {
      execv(path, argv);
      break;
    }
  }
  return 127;
}

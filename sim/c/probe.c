/* What the simulated compiler produces: reports how it was started. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

int main(int argc, char **argv) {
  char cwd[4096], buf[4096];
  ssize_t n;
  printf("PROBE\ncwd %s\n", getcwd(cwd, sizeof cwd) ? cwd : "?");
  for (int i = 1; i < argc; i++) {
    printf("arg ");
    for (char *p = argv[i]; *p; p++) printf("%02x", (unsigned char)*p);
    printf("\n");
  }
  printf("env %s\nstdin ", getenv("PROBE_ENV") ? getenv("PROBE_ENV") : "-");
  while ((n = read(0, buf, sizeof buf)) > 0) fwrite(buf, 1, n, stdout);
  printf("\nend\n");
  fprintf(stderr, "probe-stderr\n");
  return argc > 1 && !strncmp(argv[1], "-rc", 3) ? atoi(argv[1] + 3) : 0;
}

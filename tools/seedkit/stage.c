// A stand-in for the terminal and the sound hardware that fone uses. It is
// preloaded, says what it was asked for in files of a scratch directory, plays
// a known noise into the microphone and keeps what the speaker is given.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <time.h>
#include <unistd.h>

struct spec { int format; uint32_t rate; uint8_t channels; };
struct dev { int dir; long calls, frames; struct timespec first; };

static const char *path(const char *name) {
  static __thread char buf[4096];
  const char *d = getenv("STAGE_DIR");
  snprintf(buf, sizeof buf, "%s/%s", d ? d : "/nonexistent", name);
  return buf;
}

static void append(const char *name, const void *p, size_t n) {
  int fd = open(path(name), O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0600);
  if (fd < 0) return;
  if (write(fd, p, n) < 0) {}
  close(fd);
}

static void say(const char *f, ...) {
  char buf[4096];
  va_list a;
  va_start(a, f);
  int n = vsnprintf(buf, sizeof buf - 1, f, a);
  va_end(a);
  if (n < 0) return;
  if (n > (int)sizeof buf - 2) n = sizeof buf - 2;
  buf[n++] = '\n';
  append("log", buf, n);
}

static long option(const char *name) {
  const char *s = getenv(name);
  return s ? strtol(s, 0, 10) : 0;
}

static const char *or(const char *s) { return s ? s : "-"; }

struct dev *pa_simple_new(const char *server, const char *name, int dir, const char *sink, const char *stream,
                          const struct spec *ss, const void *map, const void *attr, int *err) {
  say("new|%d|%d|%u|%u|%s|%s|%s|%s", dir, ss->format, ss->rate, ss->channels, or(server), or(name), or(sink), or(stream));
  if (dir == option("STAGE_NODEV")) {
    if (err) *err = 6; // connection refused
    return 0;
  }
  struct dev *d = calloc(1, sizeof *d);
  d->dir = dir;
  return d;
}

// Takes the socket on a port away from the program.
static void cut(void) {
  FILE *f = fopen(path("cut"), "r");
  if (!f) return;
  int port = 0;
  if (fscanf(f, "%d", &port) != 1) port = 0;
  fclose(f);
  for (int fd = 3; port && fd < 256; fd++) {
    struct sockaddr_in6 a;
    socklen_t n = sizeof a;
    if (getsockname(fd, (struct sockaddr *)&a, &n) || (a.sin6_family != AF_INET && a.sin6_family != AF_INET6)) continue;
    if (ntohs(a.sin6_port) != port) continue;
    int keep = dup(fd), null = open("/dev/null", O_RDWR | O_CLOEXEC);
    dup2(null, fd);
    say("cut|%d|%d", fd, keep);
  }
  unlink(path("cut"));
}

static long faulty(struct dev *d, const char *name) {
  long k = option(name);
  return k && ++d->calls % k == 0;
}

int pa_simple_read(struct dev *d, void *p, size_t n, int *err) {
  cut();
  usleep(option("STAGE_MICWAIT") * 1000);
  if (!d->frames) clock_gettime(CLOCK_MONOTONIC, &d->first);
  if (faulty(d, "STAGE_MICFAIL")) {
    memset(p, 0x55, n);
    if (err) *err = 5; // an error of the protocol
    return -1;
  }
  uint64_t at = (uint64_t)option("STAGE_SEED") + (uint64_t)d->frames * 160;
  int16_t *s = p;
  for (size_t i = 0; i < n / 2; i++) {
    uint64_t h = (at + i) * 0x9E3779B97F4A7C15u;
    h ^= h >> 29;
    h *= 0xBF58476D1CE4E5B9u;
    h ^= h >> 32;
    s[i] = (int16_t)h;
  }
  d->frames++;
  return 0;
}

int pa_simple_write(struct dev *d, const void *p, size_t n, int *err) {
  if (faulty(d, "STAGE_SPKFAIL")) {
    if (err) *err = 5;
    return -1;
  }
  append("speaker", p, n);
  return 0;
}

int pa_simple_flush(struct dev *d, int *err) {
  say("flush|%d", d->dir);
  return 0;
}

int pa_simple_drain(struct dev *d, int *err) {
  say("drain|%d", d->dir);
  return 0;
}

void pa_simple_free(struct dev *d) {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  long ms = d->frames ? (t.tv_sec - d->first.tv_sec) * 1000 + (t.tv_nsec - d->first.tv_nsec) / 1000000 : 0;
  say("free|%d|%ld|%ld", d->dir, d->frames, ms);
  free(d);
}

void *initscr(void) {
  static char screen[4096];
  say("initscr");
  return screen;
}

int endwin(void) {
  say("endwin");
  return 0;
}

int cbreak(void) {
  say("cbreak");
  return 0;
}

int noecho(void) {
  say("noecho");
  return 0;
}

// A name server that takes its time.
int getaddrinfo(const char *node, const char *service, const struct addrinfo *hints, struct addrinfo **res) {
  int (*real)(const char *, const char *, const struct addrinfo *, struct addrinfo **) = dlsym(RTLD_NEXT, "getaddrinfo");
  const char *as = getenv("STAGE_NAME");
  if (node && as && !strncmp(node, "slow.", 5)) {
    say("lookup");
    usleep(option("STAGE_LOOKUP") * 1000);
    if (!*as) return EAI_NONAME;
    node = as;
  }
  return real(node, service, hints, res);
}

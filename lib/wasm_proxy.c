/* A library object whose functions run in a WebAssembly instance hosted by node: same calling
   convention as the native objects.  Needs from the generated table: PNP[], PN[][], NODE, HOST, MODULE. */
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <poll.h>
#include <unistd.h>
static int to = -1, from = -1; static pid_t pid;
static void start(void) {
  int a[2], b[2]; if (pipe(a) || pipe(b)) _exit(3);
  pid = fork();
  if (pid == 0) { dup2(a[0], 0); dup2(b[1], 1); close(a[0]); close(a[1]); close(b[0]); close(b[1]); sigset_t s; sigemptyset(&s); sigprocmask(SIG_SETMASK, &s, 0); execlp("node", "node", HOST, MODULE, (char *)0); _exit(127); }
  close(a[0]); close(b[1]); to = a[1]; from = b[0]; signal(SIGPIPE, SIG_IGN);
}
static void rd(void *p, size_t n) { char *c = p; while (n) { struct pollfd f = {from, POLLIN, 0}; int k = poll(&f, 1, 60000); if (k < 0) continue; if (k == 0) { kill(pid, SIGKILL); to = -1; raise(SIGILL); }
  ssize_t r = read(from, c, n); if (r < 0) continue; if (r == 0) { fprintf(stderr, "the WebAssembly host ended\n"); _exit(3); } c += r; n -= (size_t)r; } }
static void wr(const void *p, size_t n) { const char *c = p; while (n) { ssize_t r = write(to, c, n); if (r <= 0) { fprintf(stderr, "the WebAssembly host ended\n"); _exit(3); } c += r; n -= (size_t)r; } }
void vt_proxy(int idx, void **p) {
  static int m[20000]; int np = PNP[idx], *b = m + 3, sh[18], len;
  if (to < 0) start();
  m[1] = idx; m[2] = np;
  for (int i = 0; i <= np; i++) { int n = i < np ? PN[idx][i] : 1; sh[i] = i; for (int j = 0; j < i; j++) if (p[j] == p[i]) { sh[i] = j; break; } *b++ = n; *b++ = sh[i]; if (sh[i] == i) { memcpy(b, p[i], 4 * (size_t)n); b += n; } }
  m[0] = (int)((char *)b - (char *)(m + 1)); wr(m, 4 + (size_t)m[0]);
  rd(&len, 4); if (len < 0) raise(SIGSEGV); rd(m, (size_t)len); b = m + 1;
  for (int i = 0; i <= np; i++) if (sh[i] == i) { int n = i < np ? PN[idx][i] : 1; memcpy(p[i], b, 4 * (size_t)n); b += n; if (m[0] >> i & 1) ((char *)p[i])[4 * n] = 0x3A; }
}

// A call of the code under test that does not return is a violation, not a hang of the check:
// when the counters stand still for 90 s, a report with that violation is printed and the
// process group ends.
#pragma once
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <sys/time.h>
#include <unistd.h>
static volatile uint64_t *wd_a, *wd_b;
static char wd_where[400] = "";
static uint64_t wd_last;
static int wd_idle;
static void wd_tick(int) {
  uint64_t now = *wd_a + *wd_b;
  if (now != wd_last) { wd_last = now; wd_idle = 0; return; }
  if (++wd_idle < 9) return;
  char b[900];
  for (char *p = wd_where; *p; p++) if (*p == '"' || *p == '\\' || *p < ' ') *p = ' ';
  int n = snprintf(b, sizeof b, "\n{\"states\":%lu,\"transitions\":%lu,\"nontrivial\":0,\"traces\":0,\"nviol\":1,\"viols\":[\"a call of the code under test does not return (90 s without progress): %s\"],\"counters\":{},\"samples\":[]}\n",
                   (unsigned long)*wd_a, (unsigned long)*wd_b, wd_where);
  if (write(1, b, n) < 0) _exit(4);
  signal(SIGTERM, SIG_IGN);
  kill(0, SIGTERM);
  _exit(0);
}
static void watchdog(uint64_t *a, uint64_t *b) {
  wd_a = a; wd_b = b;
  struct sigaction s; memset(&s, 0, sizeof s); s.sa_handler = wd_tick; s.sa_flags = SA_RESTART;
  sigaction(SIGALRM, &s, nullptr);
  struct itimerval t = {{10, 0}, {10, 0}};
  setitimer(ITIMER_REAL, &t, nullptr);
}

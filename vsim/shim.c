/* vsim shim: linked (with -Wl,--wrap) into the real ircd built from /repo.
 *
 *  - TCP/UDP sockets become AF_UNIX sockets inside $VSIM_DIR; peer addresses
 *    are encoded in the (abstract) name the peer bound.
 *  - time() is virtual and only moves when the driver says so.
 *  - epoll_wait() tells the driver when the ircd is quiescent, can shuffle
 *    event order and can inject read/write faults.
 *  - the driver talks to us over $VSIM_DIR/ctl (we connect lazily).
 *
 * Nothing here changes what the ircd computes; it only replaces its
 * environment.
 */
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <time.h>
#include <unistd.h>

#define MAXFD 4096

extern int __real_epoll_wait(int, struct epoll_event *, int, int);
extern int __real_socket(int, int, int);
extern int __real_bind(int, const struct sockaddr *, socklen_t);
extern int __real_accept(int, struct sockaddr *, socklen_t *);
extern int __real_connect(int, const struct sockaddr *, socklen_t);
extern int __real_getsockname(int, struct sockaddr *, socklen_t *);
extern int __real_getpeername(int, struct sockaddr *, socklen_t *);
extern int __real_setsockopt(int, int, int, const void *, socklen_t);
extern ssize_t __real_recv(int, void *, size_t, int);
extern ssize_t __real_recvfrom(int, void *, size_t, int, struct sockaddr *, socklen_t *);
extern ssize_t __real_sendto(int, const void *, size_t, int, const struct sockaddr *, socklen_t);
extern ssize_t __real_send(int, const void *, size_t, int);
extern ssize_t __real_writev(int, const struct iovec *, int);
extern int __real_close(int);
extern uid_t __real_getuid(void);
extern uid_t __real_geteuid(void);
extern gid_t __real_getgid(void);
extern gid_t __real_getegid(void);
extern int __real_execvp(const char *, char *const[]);
extern ssize_t __real_read(int, void *, size_t);

/* from monitor.c (or the stub) */
extern int vsim_monitor(char *buf, size_t len);
extern int vsim_dump(const char *what, FILE *out);

extern int __real_epoll_ctl(int, int, int, struct epoll_event *);
static int n_broken;
static struct fdinfo {
  int used, family, type, broken;
  void *epdata;
  struct sockaddr_storage local, peer;
} fi[MAXFD];

static long long vnow = 1700000000LL;
static long long vtarget;
static long usec_ctr;
static int ctl = -1;
static int ctl_tried;
static const char *dir;
static int pending;          /* a command awaits quiescence */
static char cmdbuf[65536];
static size_t cmdlen;
static unsigned long long nwaits, nevents;

/* fault injection knobs */
static unsigned long long rng = 88172645463325252ULL;
static int f_wmax, f_wagain, f_rmax, f_shuffle, f_sndbuf, f_evmax;
static unsigned long long n_short, n_again, n_shuf;

static unsigned rnd(unsigned n)
{
  rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
  return (unsigned)((rng >> 11) % n);
}

static const char *vdir(void)
{
  if (!dir && !(dir = getenv("VSIM_DIR")))
    dir = "/nonexistent";
  return dir;
}

__attribute__((constructor)) static void vsim_init(void)
{
  const char *t = getenv("VSIM_TIME");
  if (t)
    vnow = atoll(t);
  vtarget = vnow;
  signal(SIGPIPE, SIG_IGN);
}

/* ---------------------------------------------------------------- time */
time_t __wrap_time(time_t *t)
{
  if (t)
    *t = (time_t)vnow;
  return (time_t)vnow;
}

int __wrap_gettimeofday(struct timeval *tv, void *tz)
{
  (void)tz;
  tv->tv_sec = vnow;
  usec_ctr = (usec_ctr + 7) % 1000000;
  tv->tv_usec = usec_ctr;
  return 0;
}

/* ---------------------------------------------------------------- ids */
uid_t __wrap_getuid(void) { uid_t u = __real_getuid(); return u ? u : 65534; }
uid_t __wrap_geteuid(void) { uid_t u = __real_geteuid(); return u ? u : 65534; }
gid_t __wrap_getgid(void) { gid_t u = __real_getgid(); return u ? u : 65534; }
gid_t __wrap_getegid(void) { gid_t u = __real_getegid(); return u ? u : 65534; }

int __wrap_execv(const char *path, char *const argv[])
{
  char b[256];
  (void)argv;
  if (ctl >= 0) {
    int n = snprintf(b, sizeof b, "EXEC %s\n", path);
    __real_send(ctl, b, n, MSG_NOSIGNAL);
  }
  _exit(77);
}

/* ---------------------------------------------------------------- address mapping */
static int is_inet(const struct sockaddr *sa)
{
  return sa && (sa->sa_family == AF_INET || sa->sa_family == AF_INET6);
}

static int sa_port(const struct sockaddr_storage *ss)
{
  return ntohs(ss->ss_family == AF_INET6 ? ((struct sockaddr_in6 *)ss)->sin6_port
               : ((struct sockaddr_in *)ss)->sin_port);
}

static void sa_text(const struct sockaddr_storage *ss, char *out, size_t len)
{
  char ip[64] = "?";
  if (ss->ss_family == AF_INET6) {
    struct sockaddr_in6 *s6 = (struct sockaddr_in6 *)ss;
    if (IN6_IS_ADDR_V4MAPPED(&s6->sin6_addr))
      inet_ntop(AF_INET, &s6->sin6_addr.s6_addr[12], ip, sizeof ip);
    else
      inet_ntop(AF_INET6, &s6->sin6_addr, ip, sizeof ip);
  } else
    inet_ntop(AF_INET, &((struct sockaddr_in *)ss)->sin_addr, ip, sizeof ip);
  snprintf(out, len, "%s", ip);
}

static void mk_sa(struct sockaddr_storage *ss, int family, const char *ip, int port)
{
  memset(ss, 0, sizeof *ss);
  if (family == AF_INET6) {
    struct sockaddr_in6 *s6 = (struct sockaddr_in6 *)ss;
    s6->sin6_family = AF_INET6;
    s6->sin6_port = htons(port);
    if (strchr(ip, ':'))
      inet_pton(AF_INET6, ip, &s6->sin6_addr);
    else {
      s6->sin6_addr.s6_addr[10] = s6->sin6_addr.s6_addr[11] = 0xff;
      inet_pton(AF_INET, ip, &s6->sin6_addr.s6_addr[12]);
    }
  } else {
    struct sockaddr_in *s4 = (struct sockaddr_in *)ss;
    s4->sin_family = AF_INET;
    s4->sin_port = htons(port);
    inet_pton(AF_INET, ip, &s4->sin_addr);
  }
}

static socklen_t sa_len(const struct sockaddr_storage *ss)
{
  return ss->ss_family == AF_INET6 ? sizeof(struct sockaddr_in6) : sizeof(struct sockaddr_in);
}

static void sa_copy(const struct sockaddr_storage *ss, struct sockaddr *out, socklen_t *len)
{
  socklen_t n = sa_len(ss);
  if (out && len) {
    memcpy(out, ss, n < *len ? n : *len);
    *len = n;
  }
}

/* decode an abstract name "\0v|ip|port|uniq" */
static int decode_name(const struct sockaddr_un *un, socklen_t len, int family,
                       struct sockaddr_storage *out)
{
  char b[128], *ip, *port, *save;
  size_t off = offsetof(struct sockaddr_un, sun_path);
  if (len <= off + 3 || un->sun_path[0] != '\0' || un->sun_path[1] != 'v')
    return 0;
  size_t n = len - off - 1;
  if (n >= sizeof b)
    n = sizeof b - 1;
  memcpy(b, un->sun_path + 1, n);
  b[n] = 0;
  strtok_r(b, "|", &save);
  ip = strtok_r(NULL, "|", &save);
  port = strtok_r(NULL, "|", &save);
  if (!ip || !port)
    return 0;
  if (family == AF_INET && strchr(ip, ':'))
    family = AF_INET6;
  mk_sa(out, family, ip, atoi(port));
  return 1;
}

int __wrap_socket(int domain, int type, int proto)
{
  int fd;
  (void)proto;
  if (domain != AF_INET && domain != AF_INET6)
    return __real_socket(domain, type, proto);
  fd = __real_socket(AF_UNIX, type, 0);
  if (fd >= 0 && fd < MAXFD) {
    memset(&fi[fd], 0, sizeof fi[fd]);
    fi[fd].used = 1;
    fi[fd].family = domain;
    fi[fd].type = type & 0xf;
    mk_sa(&fi[fd].local, domain, domain == AF_INET6 ? "::" : "0.0.0.0", 0);
  }
  return fd;
}

int __wrap_bind(int fd, const struct sockaddr *sa, socklen_t len)
{
  struct sockaddr_un un;
  char ip[64];
  static int seq;
  if (fd < 0 || fd >= MAXFD || !fi[fd].used || !is_inet(sa))
    return __real_bind(fd, sa, len);
  memset(&fi[fd].local, 0, sizeof fi[fd].local);
  memcpy(&fi[fd].local, sa, len < sizeof fi[fd].local ? len : sizeof fi[fd].local);
  sa_text(&fi[fd].local, ip, sizeof ip);
  memset(&un, 0, sizeof un);
  un.sun_family = AF_UNIX;
  if (fi[fd].type == SOCK_STREAM) {
    if (!sa_port(&fi[fd].local))
      return 0;                 /* outgoing connection; named on connect */
    snprintf(un.sun_path, sizeof un.sun_path, "%s/l%d.%d", vdir(), sa_port(&fi[fd].local),
             fi[fd].family == AF_INET6 ? 6 : 4);
    unlink(un.sun_path);
  } else {
    snprintf(un.sun_path, sizeof un.sun_path, "%s/u%d.%d.%d", vdir(), sa_port(&fi[fd].local),
             fi[fd].family == AF_INET6 ? 6 : 4, ++seq);
    unlink(un.sun_path);
  }
  return __real_bind(fd, (struct sockaddr *)&un, sizeof un);
}

int __wrap_accept(int fd, struct sockaddr *sa, socklen_t *len)
{
  struct sockaddr_un un;
  socklen_t ul = sizeof un;
  int nfd;
  if (fd < 0 || fd >= MAXFD || !fi[fd].used)
    return __real_accept(fd, sa, len);
  nfd = __real_accept(fd, (struct sockaddr *)&un, &ul);
  if (nfd < 0 || nfd >= MAXFD)
    return nfd;
  memset(&fi[nfd], 0, sizeof fi[nfd]);
  fi[nfd].used = 1;
  fi[nfd].family = fi[fd].family;
  fi[nfd].type = SOCK_STREAM;
  if (!decode_name(&un, ul, fi[fd].family, &fi[nfd].peer))
    mk_sa(&fi[nfd].peer, fi[fd].family, "127.9.9.9", 1);
  mk_sa(&fi[nfd].local, fi[fd].family, fi[fd].family == AF_INET6 ? "2001:db8::1" : "192.0.2.1",
        sa_port(&fi[fd].local));
  if (f_sndbuf) {
    int v = f_sndbuf;
    __real_setsockopt(nfd, SOL_SOCKET, SO_SNDBUF, &v, sizeof v);
  }
  sa_copy(&fi[nfd].peer, sa, len);
  return nfd;
}

int __wrap_connect(int fd, const struct sockaddr *sa, socklen_t len)
{
  struct sockaddr_un un;
  char ip[64];
  if (fd < 0 || fd >= MAXFD || !fi[fd].used || !is_inet(sa))
    return __real_connect(fd, sa, len);
  memset(&fi[fd].peer, 0, sizeof fi[fd].peer);
  memcpy(&fi[fd].peer, sa, len < sizeof fi[fd].peer ? len : sizeof fi[fd].peer);
  sa_text(&fi[fd].peer, ip, sizeof ip);
  memset(&un, 0, sizeof un);
  un.sun_family = AF_UNIX;
  snprintf(un.sun_path, sizeof un.sun_path, "%s/out/%s.%d", vdir(), ip, sa_port(&fi[fd].peer));
  if (__real_connect(fd, (struct sockaddr *)&un, sizeof un) < 0) {
    if (errno == ENOENT)
      errno = ECONNREFUSED;
    return -1;
  }
  /* give the local side a port number */
  {
    char lip[64];
    sa_text(&fi[fd].local, lip, sizeof lip);
    if (!sa_port(&fi[fd].local))
      mk_sa(&fi[fd].local, fi[fd].family, fi[fd].family == AF_INET6 ? "2001:db8::1" : "192.0.2.1",
            40000 + fd);
  }
  return 0;
}

int __wrap_getsockname(int fd, struct sockaddr *sa, socklen_t *len)
{
  if (fd < 0 || fd >= MAXFD || !fi[fd].used)
    return __real_getsockname(fd, sa, len);
  sa_copy(&fi[fd].local, sa, len);
  return 0;
}

int __wrap_getpeername(int fd, struct sockaddr *sa, socklen_t *len)
{
  if (fd < 0 || fd >= MAXFD || !fi[fd].used)
    return __real_getpeername(fd, sa, len);
  sa_copy(&fi[fd].peer, sa, len);
  return 0;
}

int __wrap_setsockopt(int fd, int level, int opt, const void *val, socklen_t len)
{
  if (fd < 0 || fd >= MAXFD || !fi[fd].used)
    return __real_setsockopt(fd, level, opt, val, len);
  (void)level; (void)opt;
  return 0;
}

int __wrap_close(int fd)
{
  if (fd >= 0 && fd < MAXFD) {
    fi[fd].used = 0;
    fi[fd].epdata = 0;
    if (fi[fd].broken)
      fi[fd].broken = 0, n_broken--;
  }
  if (fd == ctl && ctl >= 0)
    return 0;
  return __real_close(fd);
}

/* ---------------------------------------------------------------- data */
ssize_t __wrap_recv(int fd, void *buf, size_t len, int flags)
{
  if (f_rmax && len > 1) {
    size_t m = 1 + rnd(f_rmax);
    if (m < len)
      len = m, n_short++;
  }
  return __real_recv(fd, buf, len, flags);
}

static int dg_peer(struct sockaddr_un *un, const struct sockaddr *sa, socklen_t len)
{
  struct sockaddr_storage ss;
  char ip[64];
  memset(&ss, 0, sizeof ss);
  memcpy(&ss, sa, len < sizeof ss ? len : sizeof ss);
  sa_text(&ss, ip, sizeof ip);
  memset(un, 0, sizeof *un);
  un->sun_family = AF_UNIX;
  snprintf(un->sun_path, sizeof un->sun_path, "%s/udp/%s.%d", vdir(), ip, sa_port(&ss));
  return 0;
}

ssize_t __wrap_sendto(int fd, const void *buf, size_t len, int flags,
                      const struct sockaddr *sa, socklen_t sl)
{
  struct sockaddr_un un;
  ssize_t r;
  if (fd < 0 || fd >= MAXFD || !fi[fd].used || !is_inet(sa))
    return __real_sendto(fd, buf, len, flags, sa, sl);
  dg_peer(&un, sa, sl);
  r = __real_sendto(fd, buf, len, flags | MSG_NOSIGNAL, (struct sockaddr *)&un, sizeof un);
  if (r < 0 && (errno == ENOENT || errno == ECONNREFUSED))
    return (ssize_t)len;        /* UDP into the void */
  return r;
}

ssize_t __wrap_recvfrom(int fd, void *buf, size_t len, int flags,
                        struct sockaddr *sa, socklen_t *sl)
{
  struct sockaddr_un un;
  struct sockaddr_storage ss;
  socklen_t ul = sizeof un;
  ssize_t r;
  if (fd < 0 || fd >= MAXFD || !fi[fd].used)
    return __real_recvfrom(fd, buf, len, flags, sa, sl);
  r = __real_recvfrom(fd, buf, len, flags, (struct sockaddr *)&un, &ul);
  if (r < 0)
    return r;
  if (!decode_name(&un, ul, fi[fd].family, &ss))
    mk_sa(&ss, fi[fd].family, "127.8.8.8", 9);
  sa_copy(&ss, sa, sl);
  return r;
}

ssize_t __wrap_send(int fd, const void *buf, size_t len, int flags)
{
  if (f_wagain && (int)rnd(1000) < f_wagain) {
    n_again++;
    errno = EAGAIN;
    return -1;
  }
  if (f_wmax) {
    size_t m = 1 + rnd(f_wmax);
    if (m < len)
      len = m, n_short++;
  }
  return __real_send(fd, buf, len, flags | MSG_NOSIGNAL);
}

static ssize_t real_writev(int fd, const struct iovec *iov, int n)
{
  ssize_t r = __real_writev(fd, iov, n);
  if (r < 0 && errno != EAGAIN && errno != EINTR && fd >= 0 && fd < MAXFD && !fi[fd].broken) {
    /* a TCP socket whose peer reset it reports HUP from now on */
    int e = errno;
    fi[fd].broken = 1;
    n_broken++;
    errno = e;
  }
  return r;
}

ssize_t __wrap_writev(int fd, const struct iovec *iov, int n)
{
  if (fd >= 0 && fd < MAXFD && fi[fd].used) {
    if (f_wagain && (int)rnd(1000) < f_wagain) {
      n_again++;
      errno = EAGAIN;
      return -1;
    }
    if (f_wmax && n > 0) {
      struct iovec v[64];
      size_t m = 1 + rnd(f_wmax);
      int i, k = n > 64 ? 64 : n;
      for (i = 0; i < k && m; i++) {
        v[i] = iov[i];
        if (v[i].iov_len > m)
          v[i].iov_len = m, n_short++;
        m -= v[i].iov_len;
      }
      return real_writev(fd, v, i);
    }
  }
  return real_writev(fd, iov, n);
}

/* ---------------------------------------------------------------- control */
static void ctl_write(const char *b, size_t n)
{
  while (n) {
    ssize_t r = __real_send(ctl, b, n, MSG_NOSIGNAL);
    if (r < 0) {
      if (errno == EINTR)
        continue;
      if (errno == EAGAIN) {
        struct pollfd p = { ctl, POLLOUT, 0 };
        poll(&p, 1, 1000);
        continue;
      }
      _exit(0);
    }
    b += r;
    n -= r;
  }
}

static void ctl_printf(const char *fmt, ...)
{
  char b[8192];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (n >= (int)sizeof b)
    n = sizeof b - 1;
  ctl_write(b, n);
}

static void ctl_open(void)
{
  struct sockaddr_un un;
  int fd, hi;
  ctl_tried = 1;
  fd = __real_socket(AF_UNIX, SOCK_STREAM, 0);
  if (fd < 0)
    return;
  memset(&un, 0, sizeof un);
  un.sun_family = AF_UNIX;
  snprintf(un.sun_path, sizeof un.sun_path, "%s/ctl", vdir());
  if (__real_connect(fd, (struct sockaddr *)&un, sizeof un) < 0) {
    __real_close(fd);
    return;
  }
  hi = fcntl(fd, F_DUPFD_CLOEXEC, 900);
  if (hi < 0)
    hi = fcntl(fd, F_DUPFD_CLOEXEC, 200);
  __real_close(fd);
  ctl = hi;
}

static void stall_ctl_set(char *arg)
{
  char k[32];
  long v;
  if (sscanf(arg, "%31s %ld", k, &v) != 2)
    return;
  if (!strcmp(k, "wmax")) f_wmax = v;
  else if (!strcmp(k, "wagain")) f_wagain = v;
  else if (!strcmp(k, "rmax")) f_rmax = v;
  else if (!strcmp(k, "shuffle")) f_shuffle = v;
  else if (!strcmp(k, "evmax")) f_evmax = v;
  else if (!strcmp(k, "sndbuf")) f_sndbuf = v;
  else if (!strcmp(k, "seed")) rng = 88172645463325252ULL ^ ((unsigned long long)v * 0x9E3779B97F4A7C15ULL);
  if (!rng) rng = 1;
}

/* Returns 1 if the caller should go back to polling (a command is pending
 * that needs ircd progress), 0 if handled synchronously. */
static void run_cmd(char *line)
{
  switch (line[0]) {
  case 'S':                     /* sync */
    pending = 1;
    vtarget = vnow;
    break;
  case 'T':                     /* advance time, relative */
    pending = 1;
    vtarget = vnow + atoll(line + 1);
    break;
  case 'F':
    stall_ctl_set(line + 1);
    ctl_printf("ok\n");
    break;
  case 'N':
    ctl_printf("ok %lld\n", vnow);
    break;
  case 'V': {
    static char buf[6000];
    buf[0] = 0;
    int bad = vsim_monitor(buf, sizeof buf);
    for (char *p = buf; *p; p++)
      if (*p == '\n')
        *p = ';';
    ctl_printf("%s %s\n", bad ? "bad" : "ok", buf);
    break;
  }
  case 'D': {
    char *mem = NULL;
    size_t len = 0;
    FILE *f = open_memstream(&mem, &len);
    char *a = line + 1;
    while (*a == ' ')
      a++;
    vsim_dump(a, f);
    fclose(f);
    ctl_printf("ok %zu\n", len);
    ctl_write(mem, len);
    free(mem);
    break;
  }
  case 'I':
    ctl_printf("ok waits=%llu events=%llu short=%llu again=%llu shuffled=%llu\n", nwaits, nevents,
               n_short, n_again, n_shuf);
    break;
  case 'G':                     /* deliver a signal to ourselves */
    ctl_printf("ok\n");
    raise(atoi(line + 1));
    break;
  case 'X':
    ctl_printf("ok\n");
    exit(0);
  default:
    ctl_printf("err unknown\n");
  }
}

/* read at most one command; block if asked. returns 0 if none. */
static int ctl_poll(int block, int epfd)
{
  for (;;) {
    char *nl = memchr(cmdbuf, '\n', cmdlen);
    if (nl) {
      char line[4096];
      size_t n = nl - cmdbuf;
      if (n >= sizeof line)
        n = sizeof line - 1;
      memcpy(line, cmdbuf, n);
      line[n] = 0;
      cmdlen -= (nl - cmdbuf) + 1;
      memmove(cmdbuf, nl + 1, cmdlen);
      run_cmd(line);
      return 1;
    }
    if (block) {
      struct pollfd p[2] = { { ctl, POLLIN, 0 }, { epfd, POLLIN, 0 } };
      if (poll(p, 1, -1) < 0 && errno == EINTR)
        return 0;
    }
    ssize_t r = __real_recv(ctl, cmdbuf + cmdlen, sizeof cmdbuf - cmdlen, block ? 0 : MSG_DONTWAIT);
    if (r == 0)
      _exit(0);                 /* driver went away */
    if (r < 0)
      return 0;
    cmdlen += r;
  }
}

int __wrap_epoll_ctl(int epfd, int op, int fd, struct epoll_event *ev)
{
  if (fd >= 0 && fd < MAXFD)
    fi[fd].epdata = op == EPOLL_CTL_DEL ? 0 : ev ? ev->data.ptr : 0;
  return __real_epoll_ctl(epfd, op, fd, ev);
}

static int is_broken(void *p)
{
  int i;
  if (n_broken <= 0)
    return 0;
  for (i = 0; i < MAXFD; i++)
    if (fi[i].broken && fi[i].epdata == p)
      return 1;
  return 0;
}

__attribute__((noinline)) void vsim_busy(void *sock) { __asm__ volatile("" :: "r"(sock)); }

int __wrap_epoll_wait(int epfd, struct epoll_event *evs, int max, int timeout)
{
  int n, i;
  static unsigned long long spin;

  nwaits++;
  if (ctl < 0 && !ctl_tried)
    ctl_open();
  if (ctl < 0)
    return __real_epoll_wait(epfd, evs, max, timeout);

  for (;;) {
    if (f_evmax && f_evmax < max)
      max = 1 + rnd(f_evmax);
    n = __real_epoll_wait(epfd, evs, max, 0);
    if (n < 0)
      return n;
    if (n > 0) {
      nevents += n;
      if (++spin > 400000) {
        vsim_busy(evs[0].data.ptr);
        ctl_printf("busy fd=%d ev=%x n=%d\n", (int)evs[0].data.fd, evs[0].events, n);
        spin = 0;
      }
      for (i = 0; i < n; i++) {
        /* AF_UNIX reports HUP where TCP (peer FIN) only reports IN. */
        if ((evs[i].events & (EPOLLHUP | EPOLLRDHUP)) && !is_broken(evs[i].data.ptr))
          if (evs[i].events & (EPOLLIN | EPOLLOUT))
            evs[i].events &= ~(EPOLLHUP | EPOLLRDHUP);
      }
      if (f_shuffle && n > 1) {
        for (i = n - 1; i > 0; i--) {
          int j = rnd(i + 1);
          struct epoll_event t = evs[i];
          evs[i] = evs[j];
          evs[j] = t;
        }
        n_shuf++;
      }
      return n;
    }
    /* idle */
    if (timeout == 0)
      return 0;
    if (pending) {
      if (vnow < vtarget) {
        long long step = vtarget - vnow;
        if (timeout > 0 && (timeout + 999) / 1000 < step)
          step = (timeout + 999) / 1000;
        vnow += step;
        spin = 0;
        return 0;               /* let timers run */
      }
      pending = 0;
      spin = 0;
      ctl_printf("ok\n");
    }
    if (!ctl_poll(1, epfd)) {
      errno = EINTR;
      return -1;                /* a signal arrived */
    }
  }
}

/* iauth: hand the child's stdin/stdout to the driver instead of exec()ing */
int __wrap_execvp(const char *file, char *const argv[])
{
  struct sockaddr_un un;
  struct msghdr mh;
  struct iovec iov;
  char cbuf[CMSG_SPACE(2 * sizeof(int))];
  struct cmsghdr *c;
  int fd, fds[2] = { 0, 2 };
  char tok[256];
  (void)argv;
  fd = __real_socket(AF_UNIX, SOCK_STREAM, 0);
  memset(&un, 0, sizeof un);
  un.sun_family = AF_UNIX;
  snprintf(un.sun_path, sizeof un.sun_path, "%s/iauth", vdir());
  if (__real_connect(fd, (struct sockaddr *)&un, sizeof un) < 0)
    _exit(0);
  snprintf(tok, sizeof tok, "%s", file);
  memset(&mh, 0, sizeof mh);
  iov.iov_base = tok;
  iov.iov_len = strlen(tok) + 1;
  mh.msg_iov = &iov;
  mh.msg_iovlen = 1;
  mh.msg_control = cbuf;
  mh.msg_controllen = sizeof cbuf;
  c = CMSG_FIRSTHDR(&mh);
  c->cmsg_level = SOL_SOCKET;
  c->cmsg_type = SCM_RIGHTS;
  c->cmsg_len = CMSG_LEN(2 * sizeof(int));
  memcpy(CMSG_DATA(c), fds, sizeof fds);
  sendmsg(fd, &mh, MSG_NOSIGNAL);
  _exit(0);
}

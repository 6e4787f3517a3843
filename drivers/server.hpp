// Fork server: one child per case, so that exit(), abort() and sanitizer reports
// of the code under test end only that case.
//   request : "<n>\n" + n bytes
//   reply   : "<kind> <code> <nres> <nout> <nerr>\n" + res + out + err
//     kind  : E exited with code, S killed by signal code, T out of CPU/wall time
// A session runs several cases one after another in the same child:
//   request : "S<n>\n" + n bytes   the next case of the session (starts one if none is open)
//             "Q\n"                the session ends; replied to with "E 0 0 0 0"
// A case that ends the child ends the session; its reply is then the server's.
#ifndef VF_SERVER_HPP
#define VF_SERVER_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <errno.h>
#include <exception>
#include <fcntl.h>
#include <iostream>
#include <signal.h>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

int vf_case(const std::string &body, FILE *res);  // runs in the child

static const int VF_CPU_SECONDS = 5;
static const double VF_WALL_SECONDS = 90;
static const off_t VF_MAX_OUT = 48 << 20;

static std::string vf_slurp(int fd, size_t most) {
  std::string s;
  lseek(fd, 0, SEEK_SET);
  char b[65536];
  ssize_t n;
  while ((n = read(fd, b, sizeof b)) > 0) {
    s.append(b, n);
    if (s.size() > most) break;
  }
  return s;
}

static volatile sig_atomic_t vf_alarm = 0;
static void vf_on_alarm(int) { vf_alarm = 1; }

static bool vf_readn(FILE *f, std::string &s, size_t n) {
  s.resize(n);
  return n == 0 || fread(&s[0], 1, n, f) == n;
}

static int vf_fds[3];
static FILE *vf_out;

static void vf_reply(char kind, int code) {
  std::string r = vf_slurp(vf_fds[0], VF_MAX_OUT), o = vf_slurp(vf_fds[1], 2u << 20), e = vf_slurp(vf_fds[2], 2u << 20);
  fprintf(vf_out, "%c %d %zu %zu %zu\n", kind, code, r.size(), o.size(), e.size());
  fwrite(r.data(), 1, r.size(), vf_out);
  fwrite(o.data(), 1, o.size(), vf_out);
  fwrite(e.data(), 1, e.size(), vf_out);
  fflush(vf_out);
}
static void vf_fresh() {
  for (int i = 0; i < 3; ++i) {
    if (ftruncate(vf_fds[i], 0)) {}
    lseek(vf_fds[i], 0, SEEK_SET);
  }
}
static void vf_cpu() {  // so many seconds from now on
  struct rusage u;
  getrusage(RUSAGE_SELF, &u);
  rlim_t t = (rlim_t)(u.ru_utime.tv_sec + u.ru_stime.tv_sec + VF_CPU_SECONDS);
  struct rlimit rl = {t, RLIM_INFINITY};
  setrlimit(RLIMIT_CPU, &rl);
}

static void vf_child(std::string body, bool session, volatile int *busy) {
  vf_cpu();
  struct rlimit core = {0, 0};
  setrlimit(RLIMIT_CORE, &core);
  struct rlimit fs = {(rlim_t)VF_MAX_OUT, (rlim_t)VF_MAX_OUT};
  setrlimit(RLIMIT_FSIZE, &fs);
  FILE *in = session ? fdopen(dup(0), "r") : nullptr;
  int nul = open("/dev/null", O_RDONLY);
  dup2(nul, 0);
  dup2(vf_fds[1], 1);
  dup2(vf_fds[2], 2);
  FILE *res = fdopen(dup(vf_fds[0]), "w");
  for (;;) {
    int rc = vf_case(body, res);
    fflush(res);
    if (!session) exit(rc);
    std::cout.flush();
    std::cerr.flush();
    fflush(stdout);
    *busy = 0;
    vf_reply('E', rc);
    char line[64];
    if (!fgets(line, sizeof line, in) || line[0] != 'S') exit(0);
    if (!vf_readn(in, body, strtoul(line + 1, nullptr, 10))) exit(0);
    vf_fresh();
    *busy = 1;
    vf_cpu();
  }
}

int main() {
  signal(SIGPIPE, SIG_IGN);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = vf_on_alarm;  // no SA_RESTART: it must interrupt waitpid
  sigaction(SIGALRM, &sa, nullptr);
  for (int i = 0; i < 3; ++i) vf_fds[i] = memfd_create("vf", 0);
  vf_out = fdopen(dup(1), "w");
  volatile int *busy = (volatile int *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  char line[64];
  while (fgets(line, sizeof line, stdin)) {
    if (line[0] == 'Q') {  // no session is open (any more)
      fputs("E 0 0 0 0\n", vf_out);
      fflush(vf_out);
      continue;
    }
    bool session = line[0] == 'S';
    std::string body;
    if (!vf_readn(stdin, body, strtoul(line + session, nullptr, 10))) break;
    vf_fresh();
    fflush(nullptr);
    *busy = 1;
    pid_t pid = fork();
    if (pid == 0) vf_child(body, session, busy);
    if (pid < 0) {
      fprintf(vf_out, "F %d 0 0 0\n", errno);
      fflush(vf_out);
      continue;
    }
    int st = 0;
    bool timed = false;
    alarm((unsigned)VF_WALL_SECONDS * (session ? 3 : 1));
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
      if (vf_alarm) {
        vf_alarm = 0;
        kill(pid, SIGKILL);
        timed = true;
      }
    }
    alarm(0);
    vf_alarm = 0;
    if (!*busy) {  // the child has answered all it was asked
      fputs("E 0 0 0 0\n", vf_out);
      fflush(vf_out);
      continue;
    }
    char kind = 'E';
    int code = 0;
    if (timed) {
      kind = 'W';
    } else if (WIFSIGNALED(st)) {
      kind = 'S';
      code = WTERMSIG(st);
      if (code == SIGXCPU || code == SIGKILL) kind = 'T';
      if (code == SIGXFSZ) kind = 'T';
    } else {
      code = WEXITSTATUS(st);
    }
    vf_reply(kind, code);
  }
  return 0;
}

// ---- helpers for the case interpreters -------------------------------------
// Body grammar: lines of tokens; a string token is %<hex> (so it may hold anything).
static inline std::string vf_unhex(const std::string &t) {
  std::string s;
  for (size_t i = 1; i + 1 < t.size(); i += 2)
    s.push_back((char)strtol(t.substr(i, 2).c_str(), nullptr, 16));
  return s;
}
struct VfLine {
  std::vector<std::string> t;
  size_t i = 0;
  std::string raw() { return t.at(i++); }
  std::string s() { return vf_unhex(t.at(i++)); }
  int n() { return (int)strtol(t.at(i++).c_str(), nullptr, 10); }
  unsigned long u() { return strtoul(t.at(i++).c_str(), nullptr, 10); }
  double d() { return strtod(t.at(i++).c_str(), nullptr); }
  bool more() const { return i < t.size(); }
};
static inline std::vector<VfLine> vf_lines(const std::string &body) {
  std::vector<VfLine> v;
  std::istringstream is(body);
  std::string l;
  while (std::getline(is, l)) {
    VfLine x;
    std::istringstream ls(l);
    std::string tok;
    while (ls >> tok) x.t.push_back(tok);
    if (!x.t.empty()) v.push_back(x);
  }
  return v;
}
static inline void vf_hex(FILE *f, const std::string &s) {
  fputc('%', f);
  for (unsigned char c : s) fprintf(f, "%02x", c);
}
#endif

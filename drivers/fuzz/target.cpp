// libFuzzer target: calc_J's main() on five intact files and one that the fuzzer writes.
// The first byte selects the file and the options; the rest is its contents.
#include <csetjmp>
#include <cstdio>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <string>
#include <unistd.h>
#include <vector>

extern "C" int calcj_entry(int argc, const char **argv);
extern "C" void __real_exit(int) __attribute__((noreturn));
static jmp_buf vf_back;
static bool vf_in = false;
extern "C" __attribute__((noreturn)) void __wrap_exit(int c) {
  if (vf_in) longjmp(vf_back, 1);
  __real_exit(c);
}

static const char *const FILES[] = {"1.log", "2.log", "P.log", "1.pun", "2.pun", "P.pun"};
static std::vector<std::string> intact[2];
static int fd_first;

static void put(const char *f, const void *p, size_t n) {
  int fd = open(f, O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (fd < 0 || write(fd, p, n) != (ssize_t)n) abort();
  close(fd);
}
static std::string get(const std::string &f) {
  std::string s;
  FILE *h = fopen(f.c_str(), "rb");
  if (!h) abort();
  char b[4096];
  size_t n;
  while ((n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n);
  fclose(h);
  return s;
}

extern "C" int LLVMFuzzerInitialize(int *, char ***) {
  // current directory: holds r/ (restricted) and u/ (unrestricted), six files each
  for (int k = 0; k < 2; ++k)
    for (auto f : FILES) intact[k].push_back(get(std::string(k ? "u/" : "r/") + f));
  // one set of files per process: the argument names no directory, so use our own
  std::string d = "w" + std::to_string(getpid());
  if (system(("mkdir -p " + d).c_str()) || chdir(d.c_str())) abort();
  fd_first = open("/dev/null", O_RDONLY);
  return 0;
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t *p, size_t n) {
  if (n < 1) return 0;
  const int sel = p[0] % 6, unres = p[0] / 6 % 2, cp = p[0] / 12 % 2, beta = p[0] / 24 % 2;
  for (int i = 0; i < 6; ++i)
    if (i == sel)
      put(FILES[i], p + 1, n - 1);
    else
      put(FILES[i], intact[unres][i].data(), intact[unres][i].size());
  const char *argv[20] = {"calc_J", "-p_1", "1.pun", "-p_2", "2.pun", "-p_P", "P.pun"};
  int argc = 7;
  if (cp) argv[argc++] = "-cp";
  if (beta && unres) {
    const char *more[] = {"-s_1", "Beta", "-s_2", "Beta", "-s_P", "Beta"};
    for (auto a : more) argv[argc++] = a;
  }
  vf_in = true;
  if (!setjmp(vf_back)) {
    try {
      calcj_entry(argc, argv);
    } catch (const std::exception &) {
    } catch (...) {
    }
  }
  vf_in = false;
  for (int f = fd_first + 1; f < fd_first + 40; ++f) close(f);  // what exit() left open
  return 0;
}

// Fork server around the real program: reads one case per line
//   <dir> US <timeout_s> US <arg> US <arg> ...      (US = 0x1f)
// forks, chdir(dir), stdout/stderr -> dir/stdout, runs fstalign's own main()
// in the child, and prints one line per case:  <index> <kind> <value>
// kind: exit <code> | signal <signo> | throw 0 | timeout 0
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <exception>
#include <iostream>
#include <string>
#include <vector>

extern "C" int fstalign_main(int argc, char **argv);

int main() {
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  std::string line;
  int idx = 0;
  int slow = 0;  // runs that took too long: the more, the less the next are given
  setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
  while (std::getline(std::cin, line)) {
    std::vector<std::string> f;
    size_t a = 0;
    for (;;) {
      size_t b = line.find('\x1f', a);
      if (b == std::string::npos) {
        f.push_back(line.substr(a));
        break;
      }
      f.push_back(line.substr(a, b - a));
      a = b + 1;
    }
    int timeout = atoi(f[1].c_str());
    if (slow >= 2 && timeout > 3) timeout = 3;
    if (slow >= 6) timeout = 1;
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      if (chdir(f[0].c_str()) != 0) _exit(120);
      int fd = open("stdout", O_CREAT | O_TRUNC | O_WRONLY, 0644);
      int nul = open("/dev/null", O_RDONLY);
      dup2(nul, 0);
      dup2(fd, 1);
      dup2(fd, 2);
      struct rlimit as = {6ull << 30, 6ull << 30};
      setrlimit(RLIMIT_AS, &as);
      struct rlimit cpu = {(rlim_t)timeout, (rlim_t)timeout + 1};
      setrlimit(RLIMIT_CPU, &cpu);
      alarm(timeout * 4);
      std::vector<char *> argv;
      static char prog[] = "fstalign";
      argv.push_back(prog);
      for (size_t i = 2; i < f.size(); i++) argv.push_back(&f[i][0]);
      argv.push_back(nullptr);
      int rc = 121;
      try {
        rc = fstalign_main((int)argv.size() - 1, argv.data());
      } catch (const std::exception &e) {
        fprintf(stderr, "UNCAUGHT %s\n", e.what());
        fflush(stderr);
        _exit(122);
      } catch (...) {
        fprintf(stderr, "UNCAUGHT\n");
        fflush(stderr);
        _exit(122);
      }
      std::cout.flush();
      fflush(stdout);
      _exit(rc & 0xff);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (WIFEXITED(st)) {
      int c = WEXITSTATUS(st);
      if (c == 122)
        printf("%d throw 0\n", idx);
      else
        printf("%d exit %d\n", idx, c);
    } else {
      int s = WTERMSIG(st);
      if (s == SIGALRM || s == SIGXCPU) {
        slow++;
        printf("%d timeout 0\n", idx);
      } else
        printf("%d signal %d\n", idx, s);
    }
    fflush(stdout);
    idx++;
  }
  return 0;
}

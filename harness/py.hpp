// running a Python script of the repository on generated files
#pragma once
#include "pbt.hpp"
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/prctl.h>
#include <unistd.h>

namespace py {
using namespace pbt;
struct Out {
  int status = -1;
  std::string text, error;
};
/// one interpreter per process
struct Server {
  pid_t owner = 0, child = 0;
  int in = -1, out = -1;
  std::string buf;
  void start(const std::string &script) {
    std::string here = __FILE__;
    here = here.substr(0, here.rfind('/'));
    int a[2], b[2];
    if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC))
      abort();
    signal(SIGPIPE, SIG_IGN);
    owner = getpid();
    child = fork();
    if (child == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      itimerval t{};
      setitimer(ITIMER_PROF, &t, nullptr);
      dup2(a[0], 0);
      dup2(b[1], 1);
      std::string srv = here + "/pyserver.py";
      execlp("python3", "python3", "-B", "-S", srv.c_str(), script.c_str(), (char *)nullptr);
      _exit(127);
    }
    close(a[0]);
    close(b[1]);
    in = a[1];
    out = b[0];
    buf.clear();
  }
  bool fill() {
    pollfd p{out, POLLIN, 0};
    int r = poll(&p, 1, 20000);
    if (r <= 0) {
      kill(child, SIGKILL);
      fail("hang", "the script does not end");
    }
    char c[65536];
    ssize_t n = read(out, c, sizeof c);
    if (n <= 0)
      return false;
    buf.append(c, n);
    return true;
  }
};
inline Out run(const std::string &script, const std::vector<std::string> &args) {
  static Server s;
  if (s.owner != getpid()) {
    const char *r = getenv("VERIF_REPO");
    s.start(std::string(r ? r : "/repo") + "/" + script);
  }
  std::string l;
  for (auto &a : args)
    l += (l.empty() ? "" : "\t") + a;
  l += "\n";
  if (write(s.in, l.data(), l.size()) != ssize_t(l.size()))
    fail("script", "the interpreter has gone (a script that does not compile?)");
  size_t e;
  while ((e = s.buf.find('\n')) == std::string::npos)
    if (!s.fill())
      fail("script", "the interpreter has gone (a script that does not compile?)");
  Out o;
  size_t n = 0, m = 0;
  sscanf(s.buf.c_str(), "%d %zu %zu", &o.status, &n, &m);
  while (s.buf.size() < e + 1 + n + m)
    if (!s.fill())
      fail("script", "the interpreter has gone");
  o.text = s.buf.substr(e + 1, n);
  o.error = s.buf.substr(e + 1 + n, m);
  s.buf.erase(0, e + 1 + n + m);
  return o;
}
} // namespace py

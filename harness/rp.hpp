// Shared parts of the replayers: one JSON command per input line, one reply
// line "@@{...}" per command (the library itself may write to stdout).
#pragma once
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <csignal>
#include <cstdio>
#include <cmath>
#include <algorithm>
#include <functional>
#include <iostream>
#include <limits>
#include <string>
#include <vector>
#include <nlohmann/json.hpp>
#include <glog/logging.h>

namespace rp {
typedef nlohmann::json json;

// JSON has no infinities and NaNs
inline json num(double x) {
  if (std::isnan(x)) return "nan";
  if (std::isinf(x)) return x > 0 ? "inf" : "-inf";
  return x;
}

// Units of the model's integers: a power of two, and for odd exponents one with
// 29 significant bits, which single precision cannot hold (small multiples and
// their sums are still exact).
inline double unit(int e) { return std::ldexp(e % 2 != 0 ? 1.0 + std::ldexp(1.0, -28) : 1.0, e); }

// times far from everything, on one side
inline std::vector<double> far(bool after, double u) {
  const double m = std::numeric_limits<double>::max(), i = std::numeric_limits<double>::infinity();
  std::vector<double> r{1e6 * u, 1e12 * u, 1e18, m, i};
  if (!after)
    for (double& x : r) x = -x;
  return r;
}

// next to a range, and far away from it: just before and just after its first time, the same for its last time, then
// far before and far after
inline std::vector<double> edges(double min, double max) {
  const double i = std::numeric_limits<double>::infinity();
  std::vector<double> r{std::nextafter(min, -i), std::nextafter(min, i), std::nextafter(max, -i), std::nextafter(max, i)};
  for (bool after : {false, true})
    for (double x : far(after, std::max(1.0, std::abs(after ? max : min)))) r.push_back(x);
  return r;
}

[[noreturn]] inline void fail() { std::abort(); }

// Runs f in a child process. "ret": it returned, "fatal": a fatal check stopped
// it, anything else: it crashed.
inline std::string guarded(const std::function<void()>& f) {
  int fd[2];
  if (pipe(fd) != 0) return "nopipe";
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]);
    int null = open("/dev/null", O_WRONLY);
    dup2(null, 1);
    dup2(fd[1], 2);
    alarm(20);
    google::InstallFailureFunction(&fail);  // no stack trace of the expected failure
    f();
    _exit(7);
  }
  close(fd[1]);
  std::string err;
  char buf[4096];
  ssize_t n;
  while ((n = read(fd[0], buf, sizeof buf)) > 0) err.append(buf, n);
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 7) return "ret";
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT && err.find("Assertion") == std::string::npos &&
      err.find("AddressSanitizer") == std::string::npos)
    return "fatal";
  if (WIFSIGNALED(st)) return "signal " + std::to_string(WTERMSIG(st));
  return "exit " + std::to_string(WEXITSTATUS(st));
}

template <class F>
int loop(F handle, unsigned limit = 60) {
  google::InitGoogleLogging("replayer");
  std::string line;
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    json c = json::parse(line);
    alarm(limit);  // a call that does not return ends the replayer
    json r = handle(c);
    alarm(0);
    std::string s = "\n@@" + r.dump() + "\n";
    fputs(s.c_str(), stdout);
    fflush(stdout);
  }
  return 0;
}
}  // namespace rp

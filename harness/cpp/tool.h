// Runs a command line tool's main (renamed to tool_main) in a child process per request.
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <csignal>

namespace {
// run n hex(arg)...  -> {"rc": exit status or -1, "sig": signal or 0}
std::string OpRun(vh::In& in) {
  std::vector<std::string> args = {"tool"};
  for (int n = in.i(); n > 0; --n) args.push_back(in.bytes());
  fflush(stdout);
  const pid_t pid = fork();
  if (pid == 0) {
    alarm(20);
    const int null = open("/dev/null", O_RDWR);
    for (int fd : {0, 1, 2}) dup2(null, fd);
    std::vector<char*> argv;
    for (auto& a : args) argv.push_back(&a[0]);
    argv.push_back(nullptr);
    const int rc = tool_main(static_cast<int>(args.size()), argv.data());
    _exit(rc & 255);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  return vh::Obj().add("rc", WIFEXITED(st) ? WEXITSTATUS(st) : -1)
      .add("sig", WIFSIGNALED(st) ? WTERMSIG(st) : 0).str();
}
}  // namespace

int main() { return vh::Serve({{"run", OpRun}}); }

// Sessions of the command line program: its sources are compiled with
// cliprelude.hpp, so that they take their lines from here.  Same calling
// conventions as driver.cpp; commands:
//   file PATH CONTENT, line TEXT, eof
// The result of a line holds what was shown, whether the program has ended and
// the state of the library afterwards.  Every session runs in a process of its own.
#define NO_MAIN
#include "driver.cpp"
#include <cerrno>
#include <mutex>
#include <streambuf>
#include <sys/wait.h>

// either of them is the main function of the program
int cliMain(int, char**) __attribute__((weak));
int cliMain() __attribute__((weak));

static GenexAPI* cliApi;
static string lastState;
static void takeState()
{
  if (!cliApi) return;
  if (api.get() != cliApi) {
    api.release();
    api.reset(cliApi);
  }
  try { lastState = observeAll(); }
  catch (std::exception& e) { lastState = ",\"postfail\":" + jstr(e.what()); }
}
void cliObserve(GenexAPI* p) { cliApi = p; }
void cliGone(GenexAPI* p)
{
  if (cliApi != p) return;
  takeState();
  api.release();
  cliApi = 0;
}

static vector<Args> script;
static size_t at;
static bool pending;
// what is shown; threads of the program write to it at the same time, as they may to the real output
struct Shown : public std::streambuf
{
  std::mutex lock;
  string text;
  int overflow(int c)
  {
    std::lock_guard<std::mutex> l(lock);
    if (c != traits_type::eof()) text.push_back((char) c);
    return traits_type::not_eof(c);
  }
  std::streamsize xsputn(const char* s, std::streamsize n)
  {
    std::lock_guard<std::mutex> l(lock);
    text.append(s, n);
    return n;
  }
  string take()
  {
    std::lock_guard<std::mutex> l(lock);
    string t;
    t.swap(text);
    return t;
  }
};
static Shown shown;
static std::streambuf* realOut;

static void writeResult(bool ended, int rc)
{
  std::cout.flush();
  string text = shown.take();
  takeState();
  std::ostringstream o;
  o << "{\"ok\":true,\"out\":" << jstr(text) << ",\"ended\":" << (ended ? "true" : "false") << ",\"rc\":" << rc << lastState << "}";
  fprintf(out, "%s\n", o.str().c_str());
  fflush(out);
  shown.take();
}

static bool nextLine(string& text)
{
  if (pending) writeResult(false, 0);
  pending = false;
  shown.take();
  while (at < script.size()) {
    const Args& a = script[at++];
    if (a[0] == "file") {
      spit(path(a[1]), unhex(a[2]));
      fprintf(out, "{\"ok\":true%s}\n", fileFields(path(a[1])).c_str());
      fflush(out);
      continue;
    }
    pending = true;
    if (a[0] == "eof") return false;
    text = unhex(a[1]);
    return true;
  }
  // the script always ends the program; if it did not end, it is told again
  static int extra = 0;
  if (++extra > 4) {
    fprintf(out, "{\"ok\":true,\"still\":true}\n");
    fflush(out);
    _exit(0);
  }
  return false;
}

extern "C" char* cliReadline(const char*)
{
  string t;
  if (!nextLine(t)) return 0;
  return strdup(t.c_str());
}
extern "C" void cliAddHistory(const char*) {}

// the same lines for programs that read from cin
struct LineBuf : public std::streambuf
{
  string buf;
  int underflow()
  {
    string t;
    if (!nextLine(t)) return traits_type::eof();
    buf = t + "\n";
    setg(&buf[0], &buf[0], &buf[0] + buf.size());
    return traits_type::to_int_type(buf[0]);
  }
};

static void session()
{
  if (chdir(gDrv.dir.c_str())) _exit(64);
  LineBuf lines;
  std::cin.rdbuf(&lines);
  realOut = std::cout.rdbuf(&shown);
  char name[] = "genexcli";
  char* args[] = {name, 0};
  int (*withArgs)(int, char**) = cliMain;
  int (*without)() = cliMain;
  int rc = withArgs ? withArgs(1, args) : without();
  if (pending) writeResult(true, rc);
  while (at < script.size()) {
    at++;
    fprintf(out, "{\"ok\":true,\"over\":true}\n");
  }
  fflush(out);
  std::cout.rdbuf(realOut);
  _exit(0);
}

int main(int argc, char** argv)
{
  if (argc < 5) return 64;
  signal(SIGXFSZ, SIG_IGN);
  std::ifstream in(argv[1]);
  out = fopen(argv[2], "w");
  long first = atol(argv[4]);
  string line;
  vector<std::pair<std::pair<long, long>, vector<Args>>> all;
  while (std::getline(in, line)) {
    Args a;
    std::istringstream ls(line);
    string t;
    while (ls >> t) a.push_back(t);
    if (a.empty()) continue;
    if (a[0] == "T") all.push_back(std::make_pair(std::make_pair(atol(a[1].c_str()), atol(a[2].c_str())), vector<Args>()));
    else all.back().second.push_back(a);
  }
  for (size_t i = 0; i < all.size(); i++) {
    if (all[i].first.first < first) continue;
    gDrv.G = all[i].first.second;
    gDrv.unit = 1;
    gDrv.limit = -1;
    char* d = realpath(argv[3], 0);
    gDrv.dir = string(d) + "/s";
    gDrv.tmp = string(d) + "/t";
    free(d);
    emptyDir(gDrv.dir);
    emptyDir(gDrv.tmp);
    fprintf(out, "{\"T\":%ld}\n", all[i].first.first);
    fflush(out);
    pid_t p = fork();
    if (p == 0) {
      script = all[i].second;
      session();
    }
    int status = 0;
    while (waitpid(p, &status, 0) < 0 && errno == EINTR) {}
    if (!WIFEXITED(status) || WEXITSTATUS(status)) return WIFEXITED(status) ? WEXITSTATUS(status) : 98;
  }
  fseek(out, 0, SEEK_END);
  fputs("{\"END\":1}\n", out);
  fclose(out);
  return 0;
}

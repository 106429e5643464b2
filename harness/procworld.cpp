// Runs the real solver-process loop (minizinc/process.hh) in a virtual operating system: processes,
// pipes, signals and time are simulated by the functions below, which replace those of the C library
// while a schedule is running.  Reads schedules (JSON-free line format, see checks/process.py) from
// standard input and prints one trace per schedule.
#include <minizinc/process.hh>

#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/syscall.h>
#include <cstdarg>
#include <cstring>
#include <iostream>
#include <sstream>
#include <map>
#include <algorithm>

namespace vw {
typedef long long I;
const I US = 1000;  // times below are in microseconds
const I FOREVER = 1LL << 60;
struct Abort {};
struct Op { I d; char k; int a; int b; };  // w(rite) c(lose) x(exit) h(older closes)
struct Pipe { std::string buf; int wr = 1; bool rd = true; bool prd = true, pwr = true; bool nb = false; I written = 0, lost = 0; };
bool on = false;
bool dead = false;      // the schedule was given up (hang, default signal action)
I now, base;
std::vector<Op> prog; size_t pc; I opAt;
std::vector<std::pair<I, int>> intr;            // timed signals to the parent
std::vector<std::pair<int, int>> bound;         // signals at the n-th call
int calls;
int limit, cleanup, first, ignmask, react; bool nopg, holder;
std::vector<Pipe> pipes;
std::map<int, std::pair<int, bool>> fds;        // fd -> (pipe, is write end)
int nextfd;
bool forked, alive, reaped, pgid; int status; I dieAt; bool holds;
int chpipe[3]; bool chopen[3];
struct sigaction act[65]; sigset_t mask; std::vector<int> pend;
std::ostringstream tr;
size_t wpos[3], dpos[3];
int nev;

char byteAt(int ch, size_t p) { return p % 61 == 60 ? '\n' : char('a' + (p * 7 + ch * 3 + p / 61) % 26); }
void ev(const std::string& s) {
  if (++nev > 4000) return;
  tr << "[" << (now - base) / US << "," << s << "],";
}
void giveup(const char* why) {
  ev(std::string("\"") + why + "\"");
  dead = true;
  throw Abort();
}
bool ended() { return dead; }

void closeCh(int ch) {
  if (chopen[ch]) { chopen[ch] = false; pipes[chpipe[ch]].wr--; ev(std::string("\"close\",\"") + (ch == 1 ? "out" : "err") + "\""); }
}
void die(int st, bool sig, bool keep) {
  if (!alive) return;
  alive = false; status = st; dieAt = FOREVER;
  std::ostringstream o;
  bool k = keep && holder && chopen[1];
  o << "\"exit\"," << (sig ? 1 : WEXITSTATUS(st)) << "," << (k ? 1 : 0);
  for (int ch = 1; ch <= 2; ch++) if (chopen[ch] && !(ch == 1 && k)) { chopen[ch] = false; pipes[chpipe[ch]].wr--; }
  holds = k;
  ev(o.str());
}
// performs what the solver does at the current time; returns true if something happened
bool solver() {
  if (!forked) return false;
  if (alive && dieAt <= now) { die(0, false, true); pc = prog.size(); return true; }
  if (pc >= prog.size()) return false;
  if (opAt > now) return false;
  Op& o = prog[pc];
  if (o.k == 'h') {
    if (alive) return false;
    if (holds) { holds = false; closeCh(1); }
  } else if (!alive) {
    // the rest of the program is not executed, except for the holder
  } else if (dieAt != FOREVER && o.k != 'w') {
    return false;
  } else if (o.k == 'w') {
    Pipe& p = pipes[chpipe[o.a]];
    if (!chopen[o.a]) { /* writing to a closed channel has no effect */ }
    else if (!p.rd) {
      ev(std::string("\"w\",\"") + (o.a == 1 ? "out" : "err") + "\"," + std::to_string(o.b));
      die(SIGPIPE, true, false);
    } else {
      int space = 65536 - (int)p.buf.size(), n = std::min(space, o.b);
      if (n <= 0) return false;
      for (int i = 0; i < n; i++) p.buf += byteAt(o.a, wpos[o.a]++);
      ev(std::string("\"w\",\"") + (o.a == 1 ? "out" : "err") + "\"," + std::to_string(n));
      o.b -= n;
      if (o.b > 0) return true;
    }
  } else if (o.k == 'c') closeCh(o.a);
  else if (o.k == 'x') die(o.b << 8, false, true);
  pc++;
  if (pc < prog.size()) opAt = now + prog[pc].d * US;
  return true;
}
I nextEvent() {
  I t = FOREVER;
  if (forked) {
    if (alive && dieAt < t) t = dieAt;
    if (pc < prog.size() && opAt < t) {
      Op& o = prog[pc];
      bool blocked = alive && (o.k == 'h' || (dieAt != FOREVER && o.k != 'w') ||
                     (o.k == 'w' && chopen[o.a] && pipes[chpipe[o.a]].rd && pipes[chpipe[o.a]].buf.size() >= 65536));
      if (!blocked) t = opAt;
    }
    for (auto& i : intr) if (i.first < t) t = i.first;
  }
  return t;
}
bool deliver(int s) {  // a signal arrives at the parent
  if (sigismember(&mask, s)) { if (std::find(pend.begin(), pend.end(), s) == pend.end()) pend.push_back(s); return false; }
  if (act[s].sa_handler == SIG_IGN) return false;
  if (act[s].sa_handler == SIG_DFL) giveup("default");
  if (act[s].sa_flags & SA_SIGINFO) act[s].sa_sigaction(s, nullptr, nullptr);
  else act[s].sa_handler(s);
  return true;
}
bool arrive(int s) {
  ev(std::string("\"intr\",\"") + (s == SIGINT ? "INT" : "TERM") + "\"");
  return deliver(s);
}
bool flushPending() {
  bool h = false;
  for (size_t i = 0; i < pend.size();) {
    int s = pend[i];
    if (sigismember(&mask, s)) { i++; continue; }
    pend.erase(pend.begin() + i);
    h = deliver(s) || h;
  }
  return h;
}
// let everything happen that happens until time t; stops after a handled signal (true)
void settle() { while (solver()) {} }
bool timedSignals() {
  bool h = false;
  for (size_t i = 0; i < intr.size();) {
    if (intr[i].first <= now) { int s = intr[i].second; intr.erase(intr.begin() + i); h = arrive(s) || h; }
    else i++;
  }
  return h;
}
void enter() {
  if (dead) throw Abort();
  settle();
  if (forked) {
    calls++;
    if (calls > 20000) giveup("spin");
    for (size_t i = 0; i < bound.size();) {
      if (bound[i].first <= calls) { int s = bound[i].second; bound.erase(bound.begin() + i); arrive(s); } else i++;
    }
    timedSignals();
  }
}
// waits until cond or the deadline; 1 = cond, 0 = deadline, -1 = interrupted
template <class C> int block(C cond, I deadline) {
  if (flushPending()) return -1;
  for (int guard = 0;; guard++) {
    settle();
    if (cond()) return 1;
    if (now >= deadline) return 0;
    if (!bound.empty() && guard > 0) {
      int s = bound[0].second; bound.erase(bound.begin());
      if (arrive(s)) return -1;
      continue;
    }
    I t = std::min(nextEvent(), deadline);
    if (t >= FOREVER) {
      if (!bound.empty()) continue;
      giveup("hang");
    }
    if (t > now) now = t;
    settle();
    if (timedSignals()) return -1;
  }
}
int newfd(int p, bool w) { int f = nextfd++; fds[f] = {p, w}; return f; }
bool readable(int f) { auto it = fds.find(f); if (it == fds.end()) return true; Pipe& p = pipes[it->second.first]; return !p.buf.empty() || p.wr + (p.pwr ? 1 : 0) <= 0; }
void sendSignal(int s, bool grp) {
  if (s == 0) return;
  std::string n = s == SIGINT ? "INT" : s == SIGTERM ? "TERM" : s == SIGKILL ? "KILL" : std::to_string(s);
  ev("\"sig\",\"" + n + "\"," + (grp ? "true" : "false") + "," + (reaped ? "true" : "false"));
  if (reaped) return;
  if (s == SIGKILL) {
    if (alive) { die(SIGKILL, true, !grp); pc = std::find_if(prog.begin() + std::min(pc, prog.size()), prog.end(), [](Op& o) { return o.k == 'h'; }) - prog.begin(); opAt = now; if (pc < prog.size()) opAt = now + prog[pc].d * US; }
    if (grp && holds) { holds = false; closeCh(1); }
  } else if (alive && !(s == SIGINT && (ignmask & 1)) && !(s == SIGTERM && (ignmask & 2)))
    dieAt = std::min(dieAt, now + react * US);
}
int doSelect(int n, fd_set* r, fd_set* w, I tmo, const sigset_t* m) {
  enter();
  sigset_t old = mask;
  if (m) mask = *m;
  fd_set in; if (r) in = *r; else FD_ZERO(&in);
  auto cond = [&]() { for (auto& f : fds) if (f.first < n && FD_ISSET(f.first, &in) && readable(f.first)) return true; return false; };
  int res;
  try { res = block(cond, tmo < 0 ? FOREVER : now + tmo); } catch (...) { mask = old; throw; }
  mask = old;
  if (res == -1) { errno = EINTR; return -1; }
  int cnt = 0;
  if (r) { FD_ZERO(r); for (auto& f : fds) if (f.first < n && FD_ISSET(f.first, &in) && readable(f.first)) { FD_SET(f.first, r); cnt++; } }
  return cnt;
}
int doPoll(struct pollfd* p, nfds_t n, I tmo, const sigset_t* m) {
  enter();
  sigset_t old = mask;
  if (m) mask = *m;
  auto cond = [&]() { for (nfds_t i = 0; i < n; i++) if (p[i].fd >= 0 && readable(p[i].fd)) return true; return false; };
  int res;
  try { res = block(cond, tmo < 0 ? FOREVER : now + tmo); } catch (...) { mask = old; throw; }
  mask = old;
  if (res == -1) { errno = EINTR; return -1; }
  int cnt = 0;
  for (nfds_t i = 0; i < n; i++) {
    p[i].revents = 0;
    if (p[i].fd < 0) continue;
    auto it = fds.find(p[i].fd);
    if (it == fds.end()) { p[i].revents = POLLNVAL; cnt++; continue; }
    Pipe& q = pipes[it->second.first];
    if (!q.buf.empty()) p[i].revents |= POLLIN;
    if (q.wr + (q.pwr ? 1 : 0) <= 0) p[i].revents |= POLLHUP;
    if (p[i].revents) cnt++;
  }
  return cnt;
}
}  // namespace vw

extern "C" {
int pipe(int f[2]) { if (!vw::on) return syscall(SYS_pipe2, f, 0); vw::enter(); vw::pipes.emplace_back(); vw::pipes.back().wr = 0; int p = vw::pipes.size() - 1; f[0] = vw::newfd(p, false); f[1] = vw::newfd(p, true); return 0; }
int pipe2(int f[2], int fl) { if (!vw::on) return syscall(SYS_pipe2, f, fl); return pipe(f); }
pid_t fork() {
  if (!vw::on) return -1;
  vw::enter();
  vw::forked = true; vw::alive = true; vw::opAt = vw::now + (vw::prog.empty() ? 0 : vw::prog[0].d * vw::US);
  vw::base = vw::now;
  for (auto& i : vw::intr) i.first += vw::now;
  // the solver's channels: the pipes created last but one and last
  int np = vw::pipes.size();
  vw::chpipe[1] = np >= 3 ? 1 : 0; vw::chpipe[2] = np >= 3 ? 2 : 1;
  for (int c = 1; c <= 2; c++) { vw::chopen[c] = true; vw::pipes[vw::chpipe[c]].wr++; }
  return 4242;
}
pid_t vfork() { return fork(); }
int close(int f) {
  if (!vw::on || f < 100) return syscall(SYS_close, f);
  vw::enter();
  auto it = vw::fds.find(f);
  if (it == vw::fds.end()) { errno = EBADF; vw::ev("\"badclose\""); return -1; }
  vw::Pipe& p = vw::pipes[it->second.first];
  if (it->second.second) p.pwr = false; else { p.prd = false; p.rd = false; }
  vw::fds.erase(it);
  return 0;
}
ssize_t read(int f, void* b, size_t n) {
  if (!vw::on || f < 100) return syscall(SYS_read, f, b, n);
  vw::enter();
  auto it = vw::fds.find(f);
  if (it == vw::fds.end()) { errno = EBADF; return -1; }
  vw::Pipe& p = vw::pipes[it->second.first];
  if (p.nb && !vw::readable(f)) { errno = EAGAIN; return -1; }
  int r = vw::block([&]() { return vw::readable(f); }, vw::FOREVER);
  if (r == -1) { errno = EINTR; return -1; }
  size_t k = std::min(n, p.buf.size());
  memcpy(b, p.buf.data(), k);
  p.buf.erase(0, k);
  return k;
}
ssize_t write(int f, const void* b, size_t n) {
  if (!vw::on || f < 100) return syscall(SYS_write, f, b, n);
  auto it = vw::fds.find(f);
  if (it == vw::fds.end()) { errno = EBADF; return -1; }
  vw::pipes[it->second.first].buf.append((const char*)b, n);
  return n;
}
int select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* t) {
  if (!vw::on) return -1;
  vw::I before = vw::now, tmo = t ? t->tv_sec * 1000000LL + t->tv_usec : -1;
  if (t && (t->tv_sec < 0 || t->tv_usec < 0 || t->tv_usec >= 1000000)) { vw::ev("\"badtimeout\""); errno = EINVAL; return -1; }
  int res = vw::doSelect(n, r, w, tmo, nullptr);
  if (t) { vw::I left = std::max(0LL, tmo - (vw::now - before)); t->tv_sec = left / 1000000; t->tv_usec = left % 1000000; }
  return res;
}
int pselect(int n, fd_set* r, fd_set* w, fd_set* e, const struct timespec* t, const sigset_t* m) {
  if (!vw::on) return -1;
  if (t && (t->tv_sec < 0 || t->tv_nsec < 0 || t->tv_nsec >= 1000000000)) { vw::ev("\"badtimeout\""); errno = EINVAL; return -1; }
  return vw::doSelect(n, r, w, t ? t->tv_sec * 1000000LL + (t->tv_nsec + 999) / 1000 : -1, m);
}
int poll(struct pollfd* p, nfds_t n, int t) { if (!vw::on) return -1; return vw::doPoll(p, n, t < 0 ? -1 : t * 1000LL, nullptr); }
int ppoll(struct pollfd* p, nfds_t n, const struct timespec* t, const sigset_t* m) { if (!vw::on) return -1; return vw::doPoll(p, n, t ? t->tv_sec * 1000000LL + (t->tv_nsec + 999) / 1000 : -1, m); }
pid_t waitpid(pid_t pid, int* st, int fl) {
  if (!vw::on) return -1;
  vw::enter();
  if (!vw::forked || vw::reaped) { errno = ECHILD; return -1; }
  if (fl & WNOHANG) { if (vw::alive) return 0; }
  else if (vw::block([]() { return !vw::alive; }, vw::FOREVER) == -1) { errno = EINTR; return -1; }
  vw::reaped = true;
  if (st) *st = vw::status;
  vw::ev("\"reap\"");
  return 4242;
}
pid_t wait(int* st) { return waitpid(-1, st, 0); }
pid_t wait4(pid_t pid, int* st, int fl, struct rusage*) { return waitpid(pid, st, fl); }
int kill(pid_t pid, int s) {
  if (!vw::on) return -1;
  vw::enter();
  if (pid == -4242) { if (vw::nopg) { errno = ESRCH; return -1; } vw::sendSignal(s, true); return 0; }
  if (pid != 4242) { vw::ev("\"badpid\""); errno = ESRCH; return -1; }
  if (vw::reaped && s == 0) { errno = ESRCH; return -1; }
  vw::sendSignal(s, false);
  return 0;
}
int killpg(pid_t pid, int s) { if (!vw::on) return -1; return kill(-pid, s); }
int sigaction(int s, const struct sigaction* a, struct sigaction* o) {
  if (!vw::on) return syscall(SYS_rt_sigaction, s, a, o, 8) ? -1 : 0;  // (not used outside schedules)
  vw::enter();
  if (o) *o = vw::act[s];
  if (a) vw::act[s] = *a;
  return 0;
}
static int vwmask(int how, const sigset_t* n, sigset_t* o) {
  vw::enter();
  if (o) *o = vw::mask;
  if (n) {
    for (int s = 1; s < 65; s++) {
      bool in = sigismember(n, s) == 1;
      if (how == SIG_SETMASK) { if (in) sigaddset(&vw::mask, s); else sigdelset(&vw::mask, s); }
      else if (in) { if (how == SIG_BLOCK) sigaddset(&vw::mask, s); else sigdelset(&vw::mask, s); }
    }
    vw::flushPending();
  }
  return 0;
}
int sigprocmask(int how, const sigset_t* n, sigset_t* o) { if (!vw::on) return 0; return vwmask(how, n, o); }
int pthread_sigmask(int how, const sigset_t* n, sigset_t* o) { if (!vw::on) return 0; return vwmask(how, n, o); }
int gettimeofday(struct timeval* t, void*) {
  if (!vw::on) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); t->tv_sec = ts.tv_sec; t->tv_usec = ts.tv_nsec / 1000; return 0; }
  vw::enter(); t->tv_sec = vw::now / 1000000; t->tv_usec = vw::now % 1000000; return 0;
}
int clock_gettime(clockid_t c, struct timespec* t) {
  if (!vw::on) return syscall(SYS_clock_gettime, c, t);
  t->tv_sec = vw::now / 1000000; t->tv_nsec = vw::now % 1000000 * 1000; return 0;
}
int nanosleep(const struct timespec* t, struct timespec*) {
  if (!vw::on) return 0;
  vw::enter(); return vw::block([]() { return false; }, vw::now + t->tv_sec * 1000000LL + t->tv_nsec / 1000) == -1 ? -1 : 0;
}
int clock_nanosleep(clockid_t, int, const struct timespec* t, struct timespec* r) { return nanosleep(t, r); }
int usleep(useconds_t u) { struct timespec t = {u / 1000000, (long)(u % 1000000) * 1000}; return nanosleep(&t, nullptr); }
int setpgid(pid_t, pid_t) { return 0; }
int fcntl(int f, int c, ...) {
  va_list a; va_start(a, c); long x = va_arg(a, long); va_end(a);
  if (!vw::on || f < 100) return syscall(SYS_fcntl, f, c, x);
  auto it = vw::fds.find(f);
  if (it == vw::fds.end()) { errno = EBADF; return -1; }
  if (c == F_GETFL) return vw::pipes[it->second.first].nb ? O_NONBLOCK : 0;
  if (c == F_SETFL) vw::pipes[it->second.first].nb = (x & O_NONBLOCK) != 0;
  return 0;
}
int fcntl64(int f, int c, ...) { va_list a; va_start(a, c); long x = va_arg(a, long); va_end(a); return fcntl(f, c, x); }
}

// receives what the toolchain makes of the solver's output
struct Sink {
  struct Buf : std::streambuf {
    Sink* s;
    int overflow(int c) override { char ch = c; s->got(2, &ch, 1); return c; }
    std::streamsize xsputn(const char* p, std::streamsize n) override { s->got(2, p, n); return n; }
  } buf;
  std::ostream log;
  bool nl = false;
  Sink() : log(&buf) { buf.s = this; }
  void got(int ch, const char* p, size_t n) {
    size_t k = 0;
    for (; k < n && p[k] == vw::byteAt(ch, vw::dpos[ch]) && vw::dpos[ch] < vw::wpos[ch]; k++) vw::dpos[ch]++;
    const char* c = ch == 1 ? "out" : "err";
    if (k > 0) vw::ev(std::string("\"d\",\"") + c + "\"," + std::to_string(k));
    if (k < n) {
      // the end of the output may be completed by line ends
      bool nls = ch == 1;
      for (size_t i = k; i < n; i++) nls = nls && p[i] == '\n';
      vw::ev(nls ? "\"nl\"" : "\"garbage\"");
    }
  }
  bool feedRawDataChunk(const char* p) { got(1, p, strlen(p)); return true; }
  std::ostream& getLog() { return log; }
};

int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    using namespace vw;
    prog.clear(); intr.clear(); bound.clear(); pipes.clear(); fds.clear(); pend.clear();
    tr.str(""); nev = 0; calls = 0; nextfd = 100; forked = alive = reaped = false; dead = false; holds = false;
    dieAt = FOREVER; pc = 0; opAt = 0; memset(act, 0, sizeof act); sigemptyset(&mask);
    memset(wpos, 0, sizeof wpos); memset(dpos, 0, sizeof dpos);
    long usec; int np, ng, ho;
    in >> usec >> limit >> cleanup >> first >> ignmask >> react >> ng >> ho >> np;
    nopg = ng; holder = ho;
    now = base = 1700000000LL * 1000000 + usec;
    for (int i = 0; i < np; i++) {
      std::string k; I d; int a, b; in >> k >> d >> a >> b;
      if (k == "i") intr.push_back({d * US, a});
      else if (k == "b") bound.push_back({(int)d, a});
      else prog.push_back({d, k[0], a, b});
    }
    std::string ret;
    {
      std::vector<std::string> cmd{"solver"};
      Sink sink;
      MiniZinc::Process<Sink> p(cmd, &sink, limit, first == SIGINT, cleanup);
      on = true;
      try { int r = p.run(); on = false; ret = std::to_string(r); }
      catch (Abort&) { on = false; ret = "abort"; }
      catch (MiniZinc::SignalRaised& e) { on = false; ret = e.signal() == SIGINT ? "INT" : "TERM"; }
      catch (std::exception& e) { on = false; ret = "exception"; }
    }
    bool left = act[SIGINT].sa_handler != SIG_DFL || act[SIGTERM].sa_handler != SIG_DFL || sigismember(&mask, SIGINT) || sigismember(&mask, SIGTERM);
    if (ret != "abort") { if (left) ev("\"handlers\""); if (!fds.empty()) ev("\"fds\""); ev("\"ret\",\"" + ret + "\""); }
    if (nev > 4000) tr << "[0,\"toolong\"],";
    std::string s = tr.str();
    if (!s.empty()) s.pop_back();
    std::cout << "[" << s << "]" << std::endl;
  }
}

// Deterministic simulator for freqcd.
//
// The real program (freqcd.c + getopt.c) is linked in with its system calls renamed to sim_*; every
// run forks (fresh statics, crash containment), executes the program against a discrete-event model of
// its two input streams, its consumer, the clock and the allocator, and is judged by an independent oracle.
// One plan (a small text file) is one exactly repeatable execution; plans are drawn from a seed.
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <atomic>
#include <functional>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
using std::string; using std::vector;
typedef uint64_t u64; typedef int64_t i64; typedef __int128 i128;

extern "C" int sut_main_a(int, char **);   // uninitialised stack filled with a pattern
extern "C" int sut_main_b(int, char **);   // uninitialised stack filled with zeros
#ifdef SANITIZED
extern "C" const char *__asan_default_options() { return "abort_on_error=1:detect_leaks=0:handle_segv=1:symbolize=0"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=0:symbolize=0"; }
#endif

static const u64 M54 = (1ull << 54) - 1;

// ------------------------------------------------------------------ randomness
struct Rng {
    u64 s;
    explicit Rng(u64 x) : s(x) {}
    u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
                 z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    i64 range(i64 a, i64 b) { return a + (i64)below((u64)(b - a + 1)); }
    bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    u64 logu(int maxbits) { int b = (int)below(maxbits + 1); return b ? (next() >> (64 - b)) : 0; }
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
};
static u64 mix(u64 a, u64 b) { Rng r(a ^ (b * 0xD6E8FEB86659FD93ull) ^ 0x5bf03635); r.next(); return r.next(); }
static u64 hash_str(const string &s) { u64 h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

// ------------------------------------------------------------------ plan
enum Role { R_NONE = 0, R_IN = 1, R_OUT = 2, R_FREQ = 3 };
enum Fk { F_READ_IN, F_READ_FREQ, F_SELECT, F_WRITE, F_SHORT, F_OPEN, F_MALLOC, F_KILL, F_NK };
static const char *fkname[] = {"read_in_error", "read_freq_error", "wait_error", "write_error", "short_write",
                               "open_error", "malloc_failure", "kill"};
struct Arr { i64 t; i64 n; };
struct Fault { int kind; i64 nth; i64 arg; };
struct Plan {
    string prop = "C01";
    vector<string> args;              // complete command line without argv[0]
    string inname, outname, freqname; // "" = stdin/stdout/none
    int legacy = 0;
    int has_f = 0; i64 fval = 0; int decimal = 0;   // meaning of the offset options, for the oracle
    int expect_refuse = 0;            // start-up must be refused
    vector<u64> ev;                   // (timestamp << 10) | low bits
    string tail;                      // trailing incomplete event, hex
    vector<Arr> in; i64 in_eof = 0;   // arrivals (absolute time, bytes)
    vector<i64> incap;                // cyclic caps on read sizes (0 = none)
    string freq;                      // raw bytes
    vector<Arr> fr; i64 fr_eof = -1;  // -1: never closed
    i64 fr_open = 0;                  // when the writer of the correction stream first opens it; -1: never
    vector<i64> frcap;
    vector<i64> cost;                 // cyclic virtual cost of a system call, us
    vector<i64> wdelay;               // cyclic extra time a write takes (slow consumer)
    int stale = 0;                    // bytes already present in the output file
    vector<Fault> faults;
    int fill = 0xA5;                  // content of fresh heap memory
    string infile_path, out_path;     // exec mode
};
static string hexs(const string &s) { static const char *d = "0123456789abcdef"; string r; for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; } return r; }
static string unhex(const string &s) { string r; for (size_t i = 0; i + 1 < s.size(); i += 2) r += (char)strtol(s.substr(i, 2).c_str(), 0, 16); return r; }
static string lst(const vector<i64> &v) { string r; for (auto x : v) r += " " + std::to_string(x); return r; }
static string arr(const vector<Arr> &v) { string r; for (auto &x : v) r += " " + std::to_string(x.t) + ":" + std::to_string(x.n); return r; }
static string show(const Plan &p) {
    string s = "property " + p.prop + "\n";
    for (auto &a : p.args) s += "arg " + hexs(a) + "   # " + (a.size() > 60 ? a.substr(0, 60) + "..." : a) + "\n";
    s += "in_name " + hexs(p.inname) + "\nout_name " + hexs(p.outname) + "\nfreq_name " + hexs(p.freqname) + "\n";
    s += "legacy " + std::to_string(p.legacy) + "\nhas_f " + std::to_string(p.has_f) + "\nf " + std::to_string(p.fval) + "\ndecimal " + std::to_string(p.decimal) + "\n";
    s += "refuse " + std::to_string(p.expect_refuse) + "\n";
    s += "events"; char b[32]; for (u64 e : p.ev) { snprintf(b, sizeof b, " %016llx", (unsigned long long)e); s += b; } s += "\n";
    s += "tail " + p.tail + "\n";
    s += "in" + arr(p.in) + "\nin_eof " + std::to_string(p.in_eof) + "\nin_cap" + lst(p.incap) + "\n";
    s += "freq " + hexs(p.freq) + "\n";
    s += "fr" + arr(p.fr) + "\nfr_eof " + std::to_string(p.fr_eof) + "\nfr_open " + std::to_string(p.fr_open) + "\nfr_cap" + lst(p.frcap) + "\n";
    s += "cost" + lst(p.cost) + "\nwdelay" + lst(p.wdelay) + "\nstale " + std::to_string(p.stale) + "\nfill " + std::to_string(p.fill) + "\n";
    for (auto &f : p.faults) s += "fault " + string(fkname[f.kind]) + " " + std::to_string(f.nth) + " " + std::to_string(f.arg) + "\n";
    if (p.infile_path.size()) s += "infile " + p.infile_path + "\n";
    if (p.out_path.size()) s += "outfile " + p.out_path + "\n";
    return s;
}
static vector<string> words(const string &l) { vector<string> w; size_t i = 0; while (i < l.size()) { while (i < l.size() && (l[i] == ' ' || l[i] == '\r')) i++; size_t j = i; while (j < l.size() && l[j] != ' ' && l[j] != '\r') j++; if (j > i) w.push_back(l.substr(i, j - i)); i = j; } return w; }
static vector<i64> rdl(const vector<string> &w) { vector<i64> v; for (size_t i = 1; i < w.size(); i++) v.push_back(atoll(w[i].c_str())); return v; }
static vector<Arr> rda(const vector<string> &w) { vector<Arr> v; for (size_t i = 1; i < w.size(); i++) { size_t c = w[i].find(':'); v.push_back({atoll(w[i].c_str()), atoll(w[i].c_str() + c + 1)}); } return v; }
static bool parse(const string &text, Plan &p) {
    size_t i = 0; bool ok = false; p.args.clear();
    while (i < text.size()) {
        size_t j = text.find('\n', i); if (j == string::npos) j = text.size();
        string l = text.substr(i, j - i); i = j + 1;
        auto w = words(l); if (w.empty() || w[0][0] == '#') continue;
        string k = w[0], v = w.size() > 1 ? w[1] : "";
        if (k == "property") { p.prop = v; ok = true; }
        else if (k == "arg") p.args.push_back(v == "#" ? "" : unhex(v));
        else if (k == "in_name") p.inname = unhex(v); else if (k == "out_name") p.outname = unhex(v); else if (k == "freq_name") p.freqname = unhex(v);
        else if (k == "legacy") p.legacy = atoi(v.c_str()); else if (k == "has_f") p.has_f = atoi(v.c_str());
        else if (k == "f") p.fval = atoll(v.c_str()); else if (k == "decimal") p.decimal = atoi(v.c_str());
        else if (k == "refuse") p.expect_refuse = atoi(v.c_str());
        else if (k == "events") { p.ev.clear(); for (size_t q = 1; q < w.size(); q++) p.ev.push_back(strtoull(w[q].c_str(), 0, 16)); }
        else if (k == "tail") p.tail = v;
        else if (k == "in") p.in = rda(w); else if (k == "in_eof") p.in_eof = atoll(v.c_str()); else if (k == "in_cap") p.incap = rdl(w);
        else if (k == "freq") p.freq = unhex(v); else if (k == "fr") p.fr = rda(w); else if (k == "fr_eof") p.fr_eof = atoll(v.c_str()); else if (k == "fr_open") p.fr_open = atoll(v.c_str()); else if (k == "fr_cap") p.frcap = rdl(w);
        else if (k == "cost") p.cost = rdl(w); else if (k == "wdelay") p.wdelay = rdl(w); else if (k == "stale") p.stale = atoi(v.c_str()); else if (k == "fill") p.fill = atoi(v.c_str());
        else if (k == "infile") p.infile_path = v; else if (k == "outfile") p.out_path = v;
        else if (k == "fault") { for (int q = 0; q < F_NK; q++) if (v == fkname[q]) p.faults.push_back({q, atoll(w[2].c_str()), atoll(w[3].c_str())}); }
    }
    return ok;
}

// ------------------------------------------------------------------ shared run record
enum Lk { L_READ, L_WRITE, L_WAIT, L_OPEN, L_MALLOC, L_CLOSE, L_SLEEP };
struct LogE { u64 t; i64 res; int err; unsigned char kind, role, flag; };
enum Online { O_OK = 0, O_SPIN, O_STARVE_IN, O_STARVE_FREQ, O_HELD, O_DEADLOCK, O_STEPS, O_BADFD };
static const char *onname[] = {"ok", "spins without consuming anything", "available input is not consumed", "available correction values are not consumed",
                               "complete events are held back while waiting", "waits for ever although nothing can arrive any more", "did not finish within the step bound", "system call on a bad descriptor"};
static const int MAXLOG = 1 << 17; static const int MAXOUT = 1 << 25;
struct Rec {
    int nlog, online, online_at, exited, rc, killed; u64 now; i64 outn; int out_open; int nopen; i64 injected[F_NK];
    LogE log[MAXLOG]; unsigned char out[MAXOUT];
};
static Rec *rec;

// ------------------------------------------------------------------ simulated kernel (runs in the child)
static Plan *P; static string inbytes;
static u64 now; static i64 in_pos, fr_pos; static size_t ncost, nincap, nfrcap, nwd;
static int fd_in = 0, fd_out = 1, fd_fr = -1; static bool in_nb = false, fr_nb = false, in_closed = false, out_closed = false, fr_closed = false;
static int nextfd = 3; static i64 cnt[F_NK]; static bool in_eof_seen, fr_eof_seen; static bool out_is_file = false; static i64 out_off = 0;
static int idle_calls, starve_in, starve_fr; static u64 in_avail_since; static int steps; static bool faulted;
static void *(*volatile vmemcpy)(void *, const void *, size_t) = memcpy;

static void finish(int rc, bool exited) {
    rec->now = now; rec->exited = exited; rec->rc = rc; fflush(stderr); fflush(stdout); _exit(0);
}
static void flag(int o) { if (rec->online == O_OK) { rec->online = o; rec->online_at = rec->nlog; } }
static void lg(int kind, int role, i64 res, int err, int fl = 0) {
    if (rec->nlog >= MAXLOG) { flag(O_STEPS); finish(0, false); }
    LogE &e = rec->log[rec->nlog++]; e.t = now; e.res = res; e.err = err; e.kind = kind; e.role = role; e.flag = fl;
}
static i64 arrived(const vector<Arr> &a) { i64 n = 0; for (auto &x : a) { if ((u64)x.t > now) break; n += x.n; } return n; }
static size_t ai_in, ai_fr; static i64 got_in, got_fr;   // incremental versions
static i64 avail_in() { while (ai_in < P->in.size() && (u64)P->in[ai_in].t <= now) got_in += P->in[ai_in++].n; return got_in - in_pos; }
static i64 avail_fr() { while (ai_fr < P->fr.size() && (u64)P->fr[ai_fr].t <= now) got_fr += P->fr[ai_fr++].n; return got_fr - fr_pos; }
static bool eof_in() { return ai_in == P->in.size() && (u64)P->in_eof <= now; }
static bool fr_opened() { return P->fr_open >= 0 && (u64)P->fr_open <= now; }
static bool eof_fr() { return fr_opened() && ai_fr == P->fr.size() && P->fr_eof >= 0 && (u64)P->fr_eof <= now; }
static bool ready_in() { return avail_in() > 0 || eof_in(); }
static bool ready_fr() { return avail_fr() > 0 || eof_fr(); }
static u64 next_in() { avail_in(); if (ai_in < P->in.size()) return P->in[ai_in].t; if ((u64)P->in_eof > now) return P->in_eof; return ~0ull; }
static u64 next_fr() { avail_fr(); if (ai_fr < P->fr.size()) return P->fr[ai_fr].t; if (P->fr_eof >= 0 && (u64)P->fr_eof > now) return P->fr_eof; return ~0ull; }
static i64 cyc(const vector<i64> &v, size_t &k) { return v.empty() ? 0 : v[k++ % v.size()]; }
static bool fault(int kind, i64 &arg) {
    i64 n = cnt[kind]++;
    for (auto &f : P->faults) if (f.kind == kind && f.nth == n) { arg = f.arg; rec->injected[kind]++; faulted = true; return true; }
    return false;
}
static void step() {
    now += cyc(P->cost, ncost); steps++;
    i64 a; if (fault(F_KILL, a)) { rec->killed = 1; finish(0, false); }
    idle_calls++;
    if (idle_calls > 200) { flag(O_SPIN); finish(0, false); }
    if (steps > 120000) { flag(O_STEPS); finish(0, false); }
    // fairness: data that is available must be picked up within a bounded number of calls
    if (!in_closed && !in_eof_seen && avail_in() > 0) { if (++starve_in > 100) flag(O_STARVE_IN); } else starve_in = 0;
    if (fd_fr >= 0 && !fr_closed && !fr_eof_seen && avail_fr() > 0) { if (++starve_fr > 100) flag(O_STARVE_FREQ); } else starve_fr = 0;
}
static void waiting(u64 until) {   // virtual time passes while the program waits
    if (until <= now) return;
    idle_calls = 0;
    if (!faulted && in_pos / 8 > (rec->outn - (out_is_file ? 0 : 0)) / 8) flag(O_HELD);
    if (!in_closed && !in_eof_seen && avail_in() > 0 && until - now > 1000000) flag(O_STARVE_IN);
    now = until;
}
static bool roleready(int fd) {
    if (fd == fd_in && !in_closed) return ready_in();
    if (fd == fd_fr && !fr_closed) return ready_fr();
    return false;
}
// core wait: fds to watch for reading; returns true if something is ready
static bool wait_core(const vector<int> &fds, bool infinite, u64 timeout) {
    u64 deadline = infinite ? ~0ull : now + timeout;
    for (;;) {
        for (int fd : fds) if (roleready(fd)) return true;
        u64 nx = ~0ull;
        for (int fd : fds) { if (fd == fd_in && !in_closed) nx = std::min(nx, next_in()); if (fd == fd_fr && !fr_closed) nx = std::min(nx, next_fr()); }
        u64 till = std::min(nx, deadline);
        if (till == ~0ull) { flag(O_DEADLOCK); finish(0, false); }
        waiting(till);
        if (till == deadline && nx > deadline) return false;
    }
}
static int role_of(int fd) { if (fd == fd_in && !in_closed) return R_IN; if (fd == fd_out && !out_closed) return R_OUT; if (fd_fr >= 0 && fd == fd_fr && !fr_closed) return R_FREQ; return R_NONE; }

extern "C" {
int sim_select(int nfds, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) {
    step(); i64 a;
    if (fault(F_SELECT, a)) { lg(L_WAIT, 0, -1, (int)a); errno = (int)a; return -1; }
    vector<int> fds; vector<int> wf;
    for (int fd = 0; fd < nfds; fd++) {
        if (r && FD_ISSET(fd, r)) { fds.push_back(fd); if (!role_of(fd)) { lg(L_WAIT, 0, -1, EBADF); errno = EBADF; return -1; } }
        if (w && FD_ISSET(fd, w)) wf.push_back(fd);
    }
    bool any = !wf.empty();
    if (!any) any = wait_core(fds, tv == nullptr, tv ? (u64)tv->tv_sec * 1000000ull + tv->tv_usec : 0);
    int n = 0, fl = 0; if (r) FD_ZERO(r); if (e) FD_ZERO(e); if (w) FD_ZERO(w);
    for (int fd : fds) if (roleready(fd)) { FD_SET(fd, r); n++; fl |= 1 << role_of(fd); }
    for (int fd : wf) if (role_of(fd) == R_OUT) { FD_SET(fd, w); n++; }
    if (tv && !any) { tv->tv_sec = 0; tv->tv_usec = 0; }
    lg(L_WAIT, 0, n, 0, fl); return n;
}
int sim_pselect(int nfds, fd_set *r, fd_set *w, fd_set *e, const struct timespec *ts, const sigset_t *) {
    struct timeval tv; if (ts) { tv.tv_sec = ts->tv_sec; tv.tv_usec = ts->tv_nsec / 1000; } return sim_select(nfds, r, w, e, ts ? &tv : nullptr);
}
int sim_poll(struct pollfd *p, nfds_t n, int ms) {
    step(); i64 a;
    if (fault(F_SELECT, a)) { lg(L_WAIT, 0, -1, (int)a); errno = (int)a; return -1; }
    vector<int> fds; bool any = false;
    for (nfds_t i = 0; i < n; i++) { p[i].revents = 0; if (p[i].fd < 0) continue; int ro = role_of(p[i].fd); if (!ro) any = true; else if ((p[i].events & POLLIN) && ro != R_OUT) fds.push_back(p[i].fd); if ((p[i].events & POLLOUT) && ro == R_OUT) any = true; }
    if (!any) wait_core(fds, ms < 0, ms < 0 ? 0 : (u64)ms * 1000);
    int c = 0, fl = 0;
    for (nfds_t i = 0; i < n; i++) {
        if (p[i].fd < 0) continue; int ro = role_of(p[i].fd);
        if (!ro) p[i].revents = POLLNVAL;
        else if (ro == R_OUT) p[i].revents = p[i].events & POLLOUT;
        else if (roleready(p[i].fd)) { i64 av = ro == R_IN ? avail_in() : avail_fr(); bool ef = ro == R_IN ? eof_in() : eof_fr(); if (av > 0) p[i].revents |= p[i].events & POLLIN; if (ef) p[i].revents |= POLLHUP; if (ef && av == 0) p[i].revents |= p[i].events & POLLIN; fl |= 1 << ro; }
        if (p[i].revents) c++;
    }
    lg(L_WAIT, 0, c, 0, fl); return c;
}
int sim_ppoll(struct pollfd *p, nfds_t n, const struct timespec *ts, const sigset_t *) { return sim_poll(p, n, ts ? (int)(ts->tv_sec * 1000 + ts->tv_nsec / 1000000) : -1); }
ssize_t sim_read(int fd, void *buf, size_t count) {
    step(); int ro = role_of(fd); i64 a;
    if (ro == R_IN) {
        if (fault(F_READ_IN, a)) { lg(L_READ, ro, -1, (int)a); errno = (int)a; return -1; }
        if (avail_in() <= 0 && !eof_in()) {
            if (in_nb) { lg(L_READ, ro, -1, EAGAIN, 1); errno = EAGAIN; return -1; }
            wait_core({fd}, true, 0);
        }
        i64 n = std::min<i64>(count, avail_in()); i64 c = cyc(P->incap, nincap); if (c > 0) n = std::min(n, c);
        if (n > 0) { vmemcpy(buf, inbytes.data() + in_pos, n); in_pos += n; idle_calls = 0; starve_in = 0; }
        else if (count > 0) { if (!in_eof_seen) idle_calls = 0; in_eof_seen = true; }
        lg(L_READ, ro, n, 0); return n;
    }
    if (ro == R_FREQ) {
        if (fault(F_READ_FREQ, a)) { lg(L_READ, ro, -1, (int)a); errno = (int)a; return -1; }
        if (!fr_opened()) { if (count) idle_calls = 0; fr_eof_seen = false; lg(L_READ, ro, 0, 0, 2); return 0; }   // no writer yet
        if (avail_fr() <= 0 && !eof_fr()) {
            if (fr_nb) { lg(L_READ, ro, -1, EAGAIN, 1); errno = EAGAIN; return -1; }
            wait_core({fd}, true, 0);
        }
        i64 n = std::min<i64>(count, avail_fr()); i64 c = cyc(P->frcap, nfrcap); if (c > 0) n = std::min(n, c);
        if (n > 0) { vmemcpy(buf, P->freq.data() + fr_pos, n); fr_pos += n; idle_calls = 0; starve_fr = 0; }
        else if (count > 0) { if (!fr_eof_seen) idle_calls = 0; fr_eof_seen = true; }
        lg(L_READ, ro, n, 0); return n;
    }
    lg(L_READ, ro, -1, EBADF); errno = EBADF; return -1;
}
ssize_t sim_write(int fd, const void *buf, size_t count) {
    if (fd == 2) return write(2, buf, count);
    step(); int ro = role_of(fd); i64 a;
    if (ro != R_OUT) { lg(L_WRITE, ro, -1, EBADF); errno = EBADF; return -1; }
    if (count == 0) { lg(L_WRITE, ro, 0, 0); return 0; }
    idle_calls = 0;
    if (fault(F_WRITE, a)) { lg(L_WRITE, ro, -1, (int)a); errno = (int)a; return -1; }
    size_t n = count;
    if (fault(F_SHORT, a)) { n = std::min<size_t>(count, (size_t)(a < 1 ? 1 : a)); }
    i64 d = cyc(P->wdelay, nwd); now += d;   // slow consumer
    if (rec->outn + (i64)n > MAXOUT) { flag(O_STEPS); finish(0, false); }
    vmemcpy(rec->out + rec->outn, buf, n); rec->outn += n;
    lg(L_WRITE, ro, n, 0, n < count); return n;
}
ssize_t sim_readv(int fd, const struct iovec *v, int n) { ssize_t t = 0; for (int i = 0; i < n; i++) { ssize_t r = sim_read(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
ssize_t sim_writev(int fd, const struct iovec *v, int n) { ssize_t t = 0; for (int i = 0; i < n; i++) { ssize_t r = sim_write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
int sim_open(const char *path, int flags, ...) {
    step(); i64 a; idle_calls = 0; string s(path); int ro = R_NONE;
    if (P->inname.size() && s == P->inname) ro = R_IN; else if (P->outname.size() && s == P->outname) ro = R_OUT; else if (P->freqname.size() && s == P->freqname) ro = R_FREQ;
    for (auto &f : P->faults) if (f.kind == F_OPEN && f.nth == ro) { rec->injected[F_OPEN]++; lg(L_OPEN, ro, -1, (int)f.arg); errno = (int)f.arg; return -1; }
    (void)a;
    if (ro == R_NONE) { lg(L_OPEN, ro, -1, ENOENT); errno = ENOENT; return -1; }
    int acc = flags & O_ACCMODE;
    if ((ro == R_OUT && acc == O_RDONLY) || (ro != R_OUT && acc == O_WRONLY)) { lg(L_OPEN, ro, -1, EACCES); errno = EACCES; return -1; }
    if (ro == R_OUT && !P->stale && !(flags & O_CREAT)) { lg(L_OPEN, ro, -1, ENOENT); errno = ENOENT; return -1; }
    if (ro == R_FREQ && !(flags & O_NONBLOCK) && !fr_opened()) {   // opening a pipe waits for its writer
        if (P->fr_open < 0) { flag(O_DEADLOCK); finish(0, false); }
        waiting(P->fr_open);
    }
    int fd = nextfd++;
    if (ro == R_IN) { fd_in = fd; in_nb = flags & O_NONBLOCK; }
    if (ro == R_FREQ) { fd_fr = fd; fr_nb = flags & O_NONBLOCK; }
    if (ro == R_OUT) { fd_out = fd; out_is_file = true; rec->out_open = (flags & O_TRUNC) ? 2 : (flags & O_APPEND) ? 3 : 1; }
    rec->nopen++; lg(L_OPEN, ro, fd, 0); return fd;
}
int sim_openat(int, const char *p, int flags, ...) { return sim_open(p, flags, 0644); }
int sim_creat(const char *p, mode_t) { return sim_open(p, O_WRONLY | O_CREAT | O_TRUNC, 0644); }
int sim_close(int fd) { step(); int ro = role_of(fd); lg(L_CLOSE, ro, 0, 0); if (ro == R_IN) in_closed = true; if (ro == R_OUT) out_closed = true; if (ro == R_FREQ) fr_closed = true; if (!ro) { errno = EBADF; return -1; } return 0; }
static bool mfail() { i64 a; if (fault(F_MALLOC, a)) { lg(L_MALLOC, 0, -1, ENOMEM); errno = ENOMEM; return true; } lg(L_MALLOC, 0, 0, 0); return false; }
#ifdef SANITIZED
static void *galloc(size_t n, int fill) { void *p = malloc(n); if (p) memset(p, fill, n); return p; }
static void gfree(void *p) { free(p); }
static void *grealloc(void *p, size_t n) { return realloc(p, n); }
#else
// Every block ends at an inaccessible page, so that running over its end is a crash here as well.
static std::map<void *, std::pair<char *, size_t>> blocks; static std::map<void *, size_t> blocksize;
static void *galloc(size_t n, int fill) {
    size_t r = (n + 15) & ~(size_t)15, m = ((r + 4095) & ~(size_t)4095); if (r < n || m < r) return nullptr;
    char *b = (char *)mmap(nullptr, m + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (b == MAP_FAILED) return nullptr;
    mprotect(b, 4096, PROT_NONE); mprotect(b + 4096 + m, 4096, PROT_NONE); memset(b + 4096, fill, m);
    char *p = b + 4096 + m - r; blocks[p] = {b, m + 8192}; blocksize[p] = n; return p;
}
static void gfree(void *p) { if (!p) return; auto i = blocks.find(p); if (i == blocks.end()) { free(p); return; } mprotect(i->second.first, i->second.second, PROT_NONE); blocks.erase(i); blocksize.erase(p); }
static void *grealloc(void *p, size_t n) { void *q = galloc(n, 0xA5); if (q && p) { auto i = blocksize.find(p); if (i != blocksize.end()) vmemcpy(q, p, std::min(n, i->second)); gfree(p); } return q; }
#endif
void *sim_malloc(size_t n) { step(); if (mfail()) return nullptr; return galloc(n, P->fill); }
void *sim_calloc(size_t a, size_t b) { step(); if (mfail()) return nullptr; if (b && a > (size_t)-1 / b) return nullptr; return galloc(a * b, 0); }
void *sim_realloc(void *p, size_t n) { step(); if (mfail()) return nullptr; return grealloc(p, n); }
void sim_free(void *p) { gfree(p); }
int sim_fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); int v = va_arg(ap, int); va_end(ap); step(); int ro = role_of(fd); if (!ro) { errno = EBADF; return -1; }
    if (cmd == F_GETFL) return (ro == R_IN ? in_nb : ro == R_FREQ ? fr_nb : false) ? O_NONBLOCK : 0; if (cmd == F_SETFL) { if (ro == R_IN) in_nb = v & O_NONBLOCK; if (ro == R_FREQ) fr_nb = v & O_NONBLOCK; } return 0; }
static void slp(u64 us) { step(); u64 t = now + us; waiting(t); lg(L_SLEEP, 0, us, 0); }
int sim_usleep(useconds_t u) { slp(u); return 0; }
unsigned sim_sleep(unsigned s) { slp((u64)s * 1000000); return 0; }
int sim_nanosleep(const struct timespec *t, struct timespec *) { slp((u64)t->tv_sec * 1000000ull + t->tv_nsec / 1000); return 0; }
int sim_gettimeofday(struct timeval *tv, void *) { u64 t = now + 1700000000000000ull; tv->tv_sec = t / 1000000; tv->tv_usec = t % 1000000; return 0; }
int sim_clock_gettime(clockid_t, struct timespec *ts) { u64 t = now + 1700000000000000ull; ts->tv_sec = t / 1000000; ts->tv_nsec = (t % 1000000) * 1000; return 0; }
time_t sim_time(time_t *p) { time_t t = (now + 1700000000000000ull) / 1000000; if (p) *p = t; return t; }
void sim_exit(int rc) { finish(rc & 255, true); _exit(0); }
void sim__exit(int rc) { sim_exit(rc); }
int sim_open64(const char *p, int f, ...) { return sim_open(p, f, 0644); }
int sim___open64_2(const char *p, int f) { return sim_open(p, f, 0644); }
int sim___open_2(const char *p, int f) { return sim_open(p, f, 0644); }
int sim_openat64(int, const char *p, int f, ...) { return sim_open(p, f, 0644); }
int sim_creat64(const char *p, mode_t) { return sim_open(p, O_WRONLY | O_CREAT | O_TRUNC, 0644); }
int sim_fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); int v = va_arg(ap, int); va_end(ap); return sim_fcntl(fd, cmd, v); }
ssize_t sim___read_chk(int fd, void *b, size_t n, size_t) { return sim_read(fd, b, n); }
int sim___poll_chk(struct pollfd *p, nfds_t n, int ms, size_t) { return sim_poll(p, n, ms); }
}

// ------------------------------------------------------------------ one run
struct Outcome { int status = 0; string err; bool san = false; };
static int errfd = -1, devnull = -1;
static string build_input(const Plan &p) {
    string s; s.reserve(p.ev.size() * 8 + 8);
    if (p.infile_path.size()) { FILE *f = fopen(p.infile_path.c_str(), "rb"); if (!f) { perror(p.infile_path.c_str()); exit(3); } char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
    for (u64 e : p.ev) { uint32_t lo = (uint32_t)e, hi = (uint32_t)(e >> 32); if (p.legacy) std::swap(lo, hi); s.append((char *)&lo, 4); s.append((char *)&hi, 4); }
    s += unhex(p.tail); return s;
}
static Outcome run(Plan &p, bool variant_b = false) {
    if (errfd < 0) { errfd = memfd_create("err", 0); devnull = open("/dev/null", O_RDWR); }
    if (ftruncate(errfd, 0)) {} lseek(errfd, 0, SEEK_SET);
    rec->nlog = rec->online = rec->online_at = rec->exited = rec->rc = rec->killed = rec->out_open = rec->nopen = 0; rec->now = 0; rec->outn = 0; memset(rec->injected, 0, sizeof rec->injected);
    inbytes = build_input(p);
    fflush(stdout); fflush(stderr);
    pid_t c = fork();
    if (c == 0) {
        struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
        dup2(devnull, 0); dup2(devnull, 1); dup2(errfd, 2);
        struct itimerval it = {}; it.it_value.tv_sec = 5; setitimer(ITIMER_PROF, &it, nullptr); alarm(120);
        P = &p; vector<char *> av; static char nm[] = "freqcd"; av.push_back(nm);
        for (auto &a : p.args) av.push_back(strdup(a.c_str()));
        av.push_back(nullptr);
        int rc = (variant_b ? sut_main_b : sut_main_a)((int)av.size() - 1, av.data());
        finish(rc & 255, true);
    }
    if (c < 0) { perror("fork"); exit(3); }
    Outcome o; waitpid(c, &o.status, 0);
    off_t n = lseek(errfd, 0, SEEK_END); if (n > 20000) n = 20000; o.err.resize(n); if (n > 0 && pread(errfd, &o.err[0], n, 0) < 0) {}
    o.san = o.err.find("AddressSanitizer") != string::npos || o.err.find("runtime error:") != string::npos;
    return o;
}

// ------------------------------------------------------------------ oracle
struct Verdict { bool bad = false; string what, cls; };
static Verdict bad(const string &cls, const string &w) { Verdict v; v.bad = true; v.cls = cls; v.what = w; return v; }
static u64 out_event(const Plan &p, i64 k) { uint32_t lo, hi; memcpy(&lo, rec->out + k * 8, 4); memcpy(&hi, rec->out + k * 8 + 4, 4); if (p.legacy) std::swap(lo, hi); return ((u64)hi << 32) | lo; }
static bool valid_line(const string &l, i64 &v) {   // the reference model of one correction line
    size_t i = 0; if (l.size() > 40) return false; if (i < l.size() && (l[i] == '+' || l[i] == '-')) i++;
    if (i >= l.size()) return false; for (size_t j = i; j < l.size(); j++) if (l[j] < '0' || l[j] > '9') return false;
    i64 x = 0; for (size_t j = i; j < l.size(); j++) { x = x * 10 + (l[j] - '0'); if (x > (1ll << 40)) return false; }
    if (l[0] == '-') x = -x; if (x >= (1 << 21) || x <= -(1 << 21)) return false; v = x; return true;
}
static string num(i64 x) { return std::to_string(x); }
// the set of start offsets compatible with the options
static vector<i64> start_offsets(const Plan &p) {
    if (!p.has_f) return {0}; if (!p.decimal) return {p.fval};
    long double x = (long double)p.fval * 17179869184.0L / 1e10L; vector<i64> r; for (i64 k = (i64)x - 2; k <= (i64)x + 2; k++) { long double d = k - x; if (d < 0) d = -d; if (d <= 1.0L && k > -(1 << 21) && k < (1 << 21)) r.push_back(k); }
    return r;
}
// Check the output (a prefix of it, when 'prefix') against the correction law. Returns "" or a description.
// Only the record of what was read and written when, and the plan, are used.
struct LawStats { i64 batches = 0, fused = 0, wraps = 0, zero_reads = 0, torn = 0; std::set<i64> fs; };
static string law(const Plan &p, i64 f0, bool prefix, bool identity_only, LawStats *ls) {
    i64 nout = rec->outn / 8; i64 consumed = 0, written = 0; i64 fpos = 0; string line; vector<std::pair<int, i64>> fhist; // (log index, value)
    fhist.push_back({-1, f0});
    struct B { int rd; i64 a, b; int wr; }; vector<B> bs; size_t wb = 0;
    for (int i = 0; i < rec->nlog; i++) {
        LogE &e = rec->log[i];
        if (e.kind == L_READ && e.role == R_IN && e.res > 0) { i64 a = consumed / 8; consumed += e.res; i64 b = consumed / 8; if (b > a) { bs.push_back({i, a, b, rec->nlog}); if (ls && (consumed & 7)) ls->torn++; } else if (ls) ls->zero_reads++; }
        if (e.kind == L_READ && e.role == R_FREQ && e.res > 0) { for (i64 k = 0; k < e.res; k++) { char c = p.freq[fpos++]; if (c == '\n') { i64 v; if (valid_line(line, v)) fhist.push_back({i, v}); line.clear(); } else line += c; } }
        if (e.kind == L_WRITE && e.role == R_OUT && e.res > 0) { written += e.res; while (wb < bs.size() && written / 8 >= bs[wb].b) bs[wb++].wr = i; }
    }
    i64 complete = consumed / 8;
    if (nout > complete) return "count: " + num(nout) + " events written but only " + num(complete) + " complete events were read";
    if (!prefix && (rec->outn % 8)) return "count: output ends inside an event (" + num(rec->outn) + " bytes)";
    if (!prefix && nout != complete) return "count: " + num(complete) + " complete events read, " + num(nout) + " written";
    if (!prefix && complete != (i64)p.ev.size()) return "count: only " + num(complete) + " of " + num(p.ev.size()) + " events were read from the input";
    i64 torn = rec->outn % 8;
    if (identity_only) {
        for (i64 k = 0; k < nout; k++) if ((out_event(p, k) & 0x3ff) != (p.ev[k] & 0x3ff)) return "identity: event " + num(k) + " leaves with pattern bits " + num(out_event(p, k) & 0x3ff) + " instead of " + num(p.ev[k] & 0x3ff) + " (altered, skipped, duplicated or reordered)";
        if (f0 == 0 && fhist.size() == 1) for (i64 k = 0; k < nout; k++) if (out_event(p, k) != p.ev[k]) return "identity: event " + num(k) + " altered although no correction is set";
        return "";
    }
    // The exact total correction so far (in 2^-34 units), and how often the offset changed, for every assignment of
    // offsets to batches that explains the output so far. Time starts over after a gap the counter cannot resolve.
    struct St { i128 e; i64 f; i64 nchg; };
    vector<St> st; u64 ref_in = 0, base_in = 0, base_out = 0, prev_out = 0, prev_in = 0; bool haveref = false, haveprev = false;
    for (size_t bi = 0; bi < bs.size(); bi++) {
        B &b = bs[bi]; if (b.a >= nout && !(torn && b.a == nout)) break;
        // offsets allowed for this batch: in force at the read, or received before it was written
        vector<i64> cand; i64 inforce = f0; for (auto &h : fhist) { if (h.first < b.rd) inforce = h.second; }
        cand.push_back(inforce); for (auto &h : fhist) if (h.first > b.rd && h.first < b.wr) cand.push_back(h.second);
        if (ls) { ls->batches++; ls->fs.insert(inforce); }
        if (!haveref) { ref_in = base_in = base_out = p.ev[b.a] >> 10; st.assign(1, {0, 0, -1}); haveref = true; }
        u64 span = 0, sp = ref_in; bool beyond = false; i64 stop = std::min(b.b, nout);
        for (i64 k = b.a; k < stop; k++) { // whatever the offset
            u64 t = p.ev[k] >> 10, o = out_event(p, k), low = p.ev[k] & 0x3ff; span += (t - sp) & M54; sp = t; if (span > M54) beyond = true;
            if ((o & 0x3ff) != low) return "law: event " + num(k) + " leaves with pattern bits " + num(o & 0x3ff) + " instead of " + num(low);
            u64 ot = o >> 10; u64 din = (t - prev_in) & M54; // ordered input (0 <= din < 2^52) must stay ordered
            if (haveprev && !beyond && din < (1ull << 52)) { i64 od = (i64)((ot - prev_out) << 10) >> 10; if (od < 0) return "law: order: event " + num(k) + " leaves " + num(-od) + " units before its predecessor"; }
            prev_out = ot; prev_in = t; haveprev = true;
        }
        vector<St> next; string why; bool first = true;
        for (auto &s0 : st) for (size_t ci = 0; ci < cand.size(); ci++) {
            i64 f = cand[ci]; St s = s0; if (s.nchg < 0 || f != s.f) { s.nchg++; s.f = f; }
            i64 tol = (f == 0 && s.e == 0) ? 0 : 3 + 2 * s.nchg; string w; u64 sp2 = ref_in; u64 span2 = 0;
            for (i64 k = b.a; k < b.b && w.empty(); k++) {
                u64 t = p.ev[k] >> 10, low = p.ev[k] & 0x3ff, d = (t - ref_in) & M54; i128 e = s.e + (i128)d * f; u64 want = (base_out + (t - base_in) + (u64)(i64)(e >> 34)) & M54;
                span2 += (t - sp2) & M54; sp2 = t; if (span2 > M54) break;   // more than one period since the previous batch: not resolvable
                if (k >= nout) {
                    if (k == nout && torn) { bool m = false; for (i64 q = -tol; q <= tol && !m; q++) { u64 x = ((want + q) & M54) << 10 | low; uint32_t lo = (uint32_t)x, hi = (uint32_t)(x >> 32); if (p.legacy) std::swap(lo, hi); unsigned char bb[8]; memcpy(bb, &lo, 4); memcpy(bb + 4, &hi, 4); m = memcmp(bb, rec->out + nout * 8, torn) == 0; }
                        if (!m) w = "torn event " + num(k) + " is not a prefix of the corrected event"; }
                    break;
                }
                i64 err = (i64)(((out_event(p, k) >> 10) - want) << 10) >> 10;
                if (err > tol || err < -tol) w = "event " + num(k) + ": off by " + num(err) + " units (offset " + num(f) + ", " + num(d) + " units after the previous batch)";
            }
            if (w.empty()) {
                if (stop > b.a) { u64 d = ((p.ev[stop - 1] >> 10) - ref_in) & M54; s.e += (i128)d * f; }
                bool dup = false; for (auto &x : next) if (x.e == s.e && x.f == s.f) { x.nchg = std::max(x.nchg, s.nchg); dup = true; }
                if (!dup) next.push_back(s);
                if (ls && ci) ls->fused++;
            } else if (first) why = w;
            first = false;
        }
        if (next.empty()) return "law: " + why;
        if (stop > b.a) { u64 t = p.ev[stop - 1] >> 10; if (ls && t < ref_in) ls->wraps++; ref_in = t; }
        if (beyond || next.size() > 300) { base_in = ref_in; base_out = prev_out; St z = {0, next[0].f, next[0].nchg}; next.assign(1, z); }
        st.swap(next);
    }
    return "";
}
// A correction that is wrong independently of what a property is about is the business of C02, C03 and C05:
// C04 only answers for the correction stream, C06 for faults, C08 for the offset in force at start-up.
static bool attributable(Plan &p, const vector<i64> &f0s, bool prefix) {
    auto sane = [&](Plan &q) { vector<i64> g0 = start_offsets(q); for (i64 f0 : g0) if (law(q, f0, false, false, nullptr).empty()) return true; return false; };
    if (p.prop == "C04") { Plan q = p; q.freq.clear(); q.fr.clear(); q.fr_eof = -1; run(q); bool ok = sane(q); run(p); return ok; }
    if (p.prop == "C06") { Plan q = p; q.faults.clear(); run(q); bool ok = sane(q); run(p); return ok; }
    if (p.prop == "C08") { // consistent with some other constant offset?
        i64 n = rec->outn / 8; if (n < 2) return true; u64 t0 = p.ev[0] >> 10, o0 = out_event(p, 0) >> 10; i64 best = 0; u64 bd = 0; for (i64 k = 1; k < n; k++) { u64 d = ((p.ev[k] >> 10) - t0) & M54; if (d > bd) { bd = d; best = k; } }
        if (bd < (1ull << 40)) return false; u64 od = ((out_event(p, best) >> 10) - o0) & M54; i64 c = (i64)((od - bd) << 10) >> 10; i64 f = (i64)(((i128)c << 34) / (i128)bd);
        for (i64 g = f - 2; g <= f + 2; g++) if (law(p, g, prefix, false, nullptr).empty()) return true; return false; }
    return true;
}
// The program under test shares its address space with the simulator's record: believe it only if it is consistent.
static bool record_intact(const Plan &p) {
    if (rec->nlog < 0 || rec->nlog > MAXLOG || rec->outn < 0 || rec->outn > MAXOUT || rec->online < 0 || rec->online > O_BADFD) return false;
    i64 in = 0, fr = 0, out = 0, total = (i64)inbytes.size();
    for (int i = 0; i < rec->nlog; i++) { LogE &e = rec->log[i]; if (e.kind > L_SLEEP || e.role > R_FREQ) return false; if (e.res <= 0) continue;
        if (e.kind == L_READ && e.role == R_IN) in += e.res; if (e.kind == L_READ && e.role == R_FREQ) fr += e.res; if (e.kind == L_WRITE && e.role == R_OUT) out += e.res;
        if (in > total || fr > (i64)p.freq.size() || out > rec->outn) return false; }
    return out == rec->outn;
}
static Verdict judge(Plan &p, Outcome &o, LawStats *ls) {
    const string &c = p.prop;
    if (o.san) { size_t q = o.err.find("runtime error:"); if (q == string::npos) q = o.err.find("AddressSanitizer"); return bad("sanitizer", "undefined behaviour: " + o.err.substr(q, 140)); }
    if (WIFSIGNALED(o.status)) { int s = WTERMSIG(o.status); return bad("crash", s == SIGPROF || s == SIGALRM ? "hangs without making system calls" : "killed by signal " + num(s)); }
    if (!record_intact(p)) return bad("crash", "overwrites memory that is not its own");
    int on = rec->online;
    if (c == "C07" && on) return bad("live:" + num(on), onname[on]);
    if (on == O_SPIN || on == O_DEADLOCK || on == O_STEPS) return bad("live:" + num(on), onname[on]);
    if (on == O_STARVE_FREQ && (c == "C03" || c == "C04")) return bad("live:" + num(on), onname[on]);
    if (on == O_STARVE_IN && (c == "C01" || c == "C03")) return bad("live:" + num(on), onname[on]);
    if (p.expect_refuse) {
        if (rec->outn) return bad("refuse", "wrote " + num(rec->outn) + " bytes although start-up must be refused");
        if (!rec->exited || rec->rc == 0) return bad("refuse", "exit status 0 although start-up must be refused");
        if (o.err.empty()) return bad("refuse", "no message on stderr although start-up must be refused");
        return Verdict();
    }
    bool hadfault = false, wfault = false; for (int k = 0; k < F_NK; k++) if (rec->injected[k]) { hadfault = true; if (k == F_WRITE || k == F_SHORT) wfault = true; }
    if (!hadfault) {
        if (!rec->exited) return bad("exit", "did not exit");
        if (!rec->out_open && p.outname.size()) return bad("exit", "output file never opened (exit status " + num(rec->rc) + ")");
        if (p.outname.size() && p.stale && rec->out_open == 3) return bad("stale", "old contents of the output file precede the events");
        if (p.outname.size() && p.stale && rec->out_open == 1 && rec->outn < p.stale) return bad("stale", "old contents of the output file follow the events");
        if (rec->rc != 0 && rec->nopen == 0 && rec->nlog == 0) return bad("exit", "refuses to start (status " + num(rec->rc) + ": " + o.err.substr(0, 60) + ")");
    }
    bool prefix = hadfault; string r; vector<i64> f0s = start_offsets(p); bool idonly = c == "C01" || c == "C07";
    for (i64 f0 : f0s) { LawStats l2; string w = law(p, f0, prefix, idonly, &l2); if (w.empty()) { r = ""; if (ls) *ls = l2; break; } if (r.empty()) r = w; }
    if (f0s.empty()) r = "law: no acceptable offset";
    if (!r.empty() && (r[0] == 'l' || r[0] == 'o') && !attributable(p, f0s, prefix)) r = "";
    if (!r.empty()) { return bad(r.substr(0, r.find(':')), r + (rec->rc && !rec->nlog ? " [exit status " + num(rec->rc) + "]" : "")); }
    if (hadfault && !rec->killed) {
        i64 consumed = 0; bool eof = false; for (int i = 0; i < rec->nlog; i++) { LogE &e = rec->log[i]; if (e.kind == L_READ && e.role == R_IN) { if (e.res > 0) consumed += e.res; if (e.res == 0) eof = true; } }
        i64 complete = consumed / 8, nout = rec->outn / 8;
        if (!wfault && nout < complete) return bad("dropped", num(complete - nout) + " complete events already received were dropped after a failure elsewhere");
        bool whole = eof && rec->outn == complete * 8;
        if (!whole && o.err.empty()) return bad("silent", "stopped early without a message on stderr");
        if (!rec->exited) return bad("exit", "did not exit");
    }
    return Verdict();
}

// ------------------------------------------------------------------ plan generation
struct Knobs { int maxev = 60; bool freq = false; bool wrap = false; bool bigdelta = false; bool faults = false; bool fconst = true; bool sorted = true; bool evil_lines = false; bool idle = true; bool decimal = false; int longev = 70000; };
static i64 gap(Rng &r, int style) {
    switch (style) {
    case 0: return 0;
    case 1: return r.range(0, 3);
    case 2: return r.range(0, 2000);
    case 3: return r.pick<i64>({499999, 500000, 500001, 1000000, 0, 1});
    case 4: return r.range(100000, 3000000);
    default: return r.chance(0.03) ? r.range(5000000, 60000000) : (i64)r.logu(18);
    }
}
static vector<Arr> chunks(Rng &r, i64 total, int style, int gstyle, i64 t0) {
    vector<Arr> v; i64 t = t0; i64 left = total;
    i64 fixed = r.pick<i64>({1, 2, 3, 5, 7, 8, 9, 12, 15, 16, 17, 4, 6, 13, 63, 64, 65});
    while (left > 0) {
        i64 n;
        switch (style) {
        case 0: n = left; break;
        case 1: n = 8 * r.range(1, 8); break;
        case 2: n = r.range(1, 7); break;
        case 3: n = r.range(1, 64); break;
        case 4: n = fixed; break;
        case 5: n = r.chance(0.5) ? r.range(1, 3) : r.range(50, 400); break;
        case 6: n = r.pick<i64>({8192, 8191, 8193, 4096, 8185, 8199, 16384, 1024}); break;
        default: n = (i64)r.logu(14) + 1;
        }
        if (n > left) n = left;
        v.push_back({t, n}); left -= n; t += gap(r, gstyle);
        if (v.size() > 2500) { v.push_back({t, left}); left = 0; }
    }
    return v;
}
static vector<i64> caps(Rng &r) {
    switch (r.below(6)) {
    case 0: case 1: return {};
    case 2: return {r.range(1, 16)};
    case 3: { vector<i64> v; int n = (int)r.range(2, 7); for (int i = 0; i < n; i++) v.push_back(r.range(1, 40)); return v; }
    case 4: return {0, r.range(1, 9), 0, 8};
    default: return {r.range(1, 7), 0};
    }
}
static string filename(Rng &r, const char *base) {
    if (r.chance(0.06)) return string(r.pick<const char *>({"/tmp/my ", " ", "\tx", "a  b/", "./line\n", "%s%n", "-", "/dev/shm/\xc3\xa9 "})) + base + r.pick<const char *>({"", " ", " 2", "\n"});
    if (r.chance(0.03)) return string(r.pick<size_t>({180, 195, 196, 197, 198, 199, 250, 251, 1000, 4000}), 'n') + base;
    if (r.chance(0.1)) return string("/run/") + string((size_t)r.range(1, 150), 'a') + base; return string("/dev/shm/") + base + num(r.below(100)); }
static void opt(Rng &r, vector<vector<string>> &gs, const string &o, const string &v) { if (r.chance(0.5)) gs.push_back({"-" + o, v}); else gs.push_back({"-" + o + v}); }
static void make_args(Rng &r, Plan &p, const string *farg = nullptr) {
    vector<vector<string>> gs;
    if (p.inname.size()) opt(r, gs, "i", p.inname); if (p.outname.size()) opt(r, gs, "o", p.outname); if (p.freqname.size()) opt(r, gs, "F", p.freqname);
    if (farg) opt(r, gs, "f", *farg);
    else if (p.has_f) { string v = num(p.fval); if (p.fval >= 0 && r.chance(0.1)) v = "+" + v; opt(r, gs, "f", v); }
    if (p.legacy && p.decimal && r.chance(0.3)) gs.push_back({r.chance(0.5) ? "-xd" : "-dx"});
    else { if (p.legacy) gs.push_back({"-x"}); if (p.decimal) gs.push_back({"-d"}); }
    for (size_t i = gs.size(); i > 1; i--) std::swap(gs[i - 1], gs[r.below(i)]);
    p.args.clear(); for (auto &g : gs) for (auto &s : g) p.args.push_back(s);
}
static i64 pickf(Rng &r) {
    switch (r.below(6)) { case 0: return r.pick<i64>({1, -1, 2, -2, 3, 1024, -1024}); case 1: return r.pick<i64>({2097151, -2097151, 2097150, -2097150}); case 2: return r.range(-2097151, 2097151);
    case 3: return (i64)r.logu(21) % 2097152 * (r.chance(0.5) ? 1 : -1); case 4: return r.range(-300000, 300000); default: return r.range(-5, 5); }
}
static void gen_events(Rng &r, Plan &p, const Knobs &k) {
    int n; double x = r.chance(0.5) ? 0 : 1;
    if (x == 0) n = (int)r.range(1, 12); else n = (int)r.range(1, k.maxev);
    if (r.chance(0.02)) n = 0; if (r.chance(0.02)) n = (int)r.range(900, 2600);
    bool lng = r.chance(0.003); if (lng) n = (int)r.range(3000, k.longev);   // counters and buffers over many refills
    u64 t; switch (r.below(5)) { case 0: t = 0; break; case 1: t = r.below(1 << 20); break; case 2: t = (M54 - r.logu(50)) & M54; break; case 3: t = ((1ull << 53) + r.logu(30)) & M54; break; default: t = r.next() & M54; }
    if (!k.wrap && r.chance(0.7)) t = r.next() >> 12;   // far from the rollover: 2^52
    int maxbits = r.pick<int>({4, 12, 14, 22, 30, 36, 42, 46});
    if (k.bigdelta) maxbits = r.pick<int>({40, 46, 50, 53, 54});
    int lowmode = (int)r.below(3);
    double burst = r.chance(0.3) ? 0.5 : 0.0;
    for (int i = 0; i < n; i++) {
        u64 low = lowmode == 0 ? (i & 0x3ff) : lowmode == 1 ? r.below(1024) : r.pick<u64>({0x3ff, 0, 0x200, 1, 8, 0xf});
        p.ev.push_back((t << 10) | low);
        u64 d = r.chance(burst) ? r.below(5) : r.logu(maxbits);
        if (k.bigdelta && r.chance(0.05)) d = M54 - r.below(3);
        if (!k.wrap && t + d > M54) d = M54 > t ? std::min<u64>(d, (M54 - t)) : 0;
        t = (t + d) & M54;
        if (!k.sorted && r.chance(0.2)) t = r.next() & M54;
    }
    if (k.bigdelta && !lng && r.chance(0.7)) p.incap = {r.pick<i64>({8, 8, 16, 3, 11, 24})};
    if (r.chance(0.35)) { int m = (int)r.range(1, 7); string s; for (int i = 0; i < m; i++) s += (char)r.below(256); p.tail = hexs(s); }
}
static string good_line(Rng &r) { i64 v = pickf(r); string s; if (v >= 0 && r.chance(0.1)) s = "+"; if (v < 0) { s = "-"; v = -v; } if (r.chance(0.1)) s += string((size_t)r.range(1, 12), '0'); return s + num(v); }
static string evil_line(Rng &r) {
    switch (r.below(15)) {
    case 14: { string s = good_line(r); s.insert((size_t)r.below(s.size() + 1), (size_t)r.range(1, r.chance(0.2) ? 90 : 3), '\0'); return s; }   // zeros, as in files damaged by a crash
    case 0: return ""; case 1: return "abc"; case 2: return good_line(r) + r.pick<const char *>({"x", " ", ".5", "e3", "\r", ",", "-", " 7"});
    case 3: return r.pick<const char *>({"2097152", "-2097152", "2097153", "99999999", "-3000000"});
    case 4: return num(4294967296ll * r.range(1, 100000) + r.range(-2000000, 2000000));
    case 5: return num(-4294967296ll * r.range(1, 100000) + r.range(-2000000, 2000000));
    case 6: return r.pick<const char *>({"18446744073709551617", "-18446744073709551615", "9223372036854775808", "-9223372036854775809", "2147483647", "-2147483648", "2147483648", "-2147483647", "4294967295", "340282366920938463463374607431768211461"});
    case 7: return r.pick<const char *>({"-", "+", "--5", "+-5", "0x10", "1,000", "12 34", "1e3", "nan", "-x"});
    case 8: return string((size_t)r.range(80, 220), r.pick<char>({'x', '?', '-', 'q', '.'})) + good_line(r);
    case 9: return string((size_t)r.range(80, 400), r.pick<char>({'7', '9', '1'}));
    case 10: return string((size_t)r.pick<i64>({97, 98, 99, 100, 101, 196, 197, 198, 199, 200}), 'z') + good_line(r);
    case 11: { string s; int n = (int)r.range(1, 120); for (int i = 0; i < n; i++) { char ch = (char)r.range(33, 126); s += ch; } return "!" + s; }
    case 12: return num(r.range(2097152, 1ll << 40)); default: return "-" + num(r.range(2097152, 1ll << 40));
    }
}
static void gen_freq(Rng &r, Plan &p, const Knobs &k) {
    int n = (int)r.range(1, k.evil_lines ? 12 : 8); if (r.chance(0.05)) n = (int)r.range(20, 80); if (r.chance(0.004)) n = (int)r.range(300, 1500); string s;
    double evil = k.evil_lines ? r.pick<double>({0.2, 0.5, 0.8}) : 0.0;
    for (int i = 0; i < n; i++) s += (r.chance(evil) ? evil_line(r) : good_line(r)) + "\n";
    if (r.chance(0.2)) s += good_line(r);   // never terminated
    p.freq = s;
    i64 span = p.in_eof > 0 ? p.in_eof : 0; i64 t0 = span ? r.range(0, span) : 0; if (r.chance(0.3)) t0 = 0;
    p.fr = chunks(r, (i64)s.size(), r.pick<int>({0, 2, 3, 4, 5, 4}), r.pick<int>({0, 1, 2, 3, 5}), t0);
    if (span > 1 && r.chance(0.5)) {  // spread over the input's duration
        i64 m = (i64)p.fr.size(); for (i64 i = 0; i < m; i++) p.fr[i].t = (i64)((i128)span * i / (m + 1)) + (span > m ? r.range(0, span / (m + 1)) : 0);
        std::sort(p.fr.begin(), p.fr.end(), [](const Arr &a, const Arr &b) { return a.t < b.t; });
    }
    p.fr_eof = r.chance(0.5) ? -1 : p.fr.back().t + gap(r, 2); p.frcap = r.chance(0.5) ? vector<i64>{} : caps(r);
}
// the pipe's writer opens it only after a while, or never
static void late_writer(Rng &r, Plan &p) {
    if (r.chance(0.4)) { p.fr_open = -1; p.freq.clear(); p.fr.clear(); p.fr_eof = -1; return; }
    p.fr_open = r.range(1, (p.in_eof > 0 ? p.in_eof : 1) + 3000000); for (auto &a : p.fr) a.t += p.fr_open; if (p.fr_eof >= 0) p.fr_eof += p.fr_open;
}
static void gen_delivery(Rng &r, Plan &p, const Knobs &k) {
    i64 total = (i64)build_input(p).size();
    bool lng = p.ev.size() >= 3000;
    p.in = chunks(r, total, lng ? r.pick<int>({0, 6, 7}) : (int)r.below(8), k.idle ? (int)r.below(6) : (int)r.below(3), r.chance(0.5) ? 0 : r.range(0, 600000));
    if (k.idle && !lng && p.in.size() && r.chance(0.003)) { i64 g = r.range(60000000ll, 9000000000ll); for (size_t i = (size_t)r.below(p.in.size()); i < p.in.size(); i++) p.in[i].t += g; }   // nothing for up to hours
    p.in_eof = (p.in.empty() ? 0 : p.in.back().t) + (r.chance(0.5) ? 0 : gap(r, (int)r.below(6)));
    { auto c = caps(r); if (p.incap.empty() && !lng) p.incap = c; }
    if (r.chance(0.5)) p.cost = {r.range(0, 3)}; else { int n = (int)r.range(1, 5); for (int i = 0; i < n; i++) p.cost.push_back(r.chance(0.7) ? r.range(0, 5) : r.range(0, 20000)); }
    if (r.chance(0.3)) { int n = (int)r.range(1, 4); for (int i = 0; i < n; i++) p.wdelay.push_back(r.chance(0.5) ? 0 : r.range(0, 2000000)); }
    p.fill = r.pick<int>({0xA5, 0, 0xff, 0x31});
}
static void names(Rng &r, Plan &p, bool freq) { if (r.chance(0.5)) p.inname = filename(r, "in"); if (r.chance(0.5)) { p.outname = filename(r, "out"); if (r.chance(0.3)) p.stale = (int)r.range(1, 4000); } if (freq) p.freqname = filename(r, "freq"); p.legacy = r.chance(0.4); }
static void add_fault(Rng &r, Plan &p, i64 reads, i64 selects, i64 writes, i64 freads) {
    int kind; do { kind = r.pick<int>({F_READ_IN, F_READ_FREQ, F_SELECT, F_WRITE, F_SHORT, F_KILL}); } while (kind == F_READ_FREQ && p.freqname.empty());
    Fault f; f.kind = kind; f.arg = 0;
    switch (kind) {
    case F_READ_IN: f.nth = r.below(reads + 1); f.arg = r.pick<i64>({EIO, EAGAIN, EINTR, ECONNRESET, EISDIR}); break;
    case F_READ_FREQ: f.nth = r.below(freads + 1); f.arg = r.pick<i64>({EIO, EAGAIN, EINTR, ECONNRESET}); break;
    case F_SELECT: f.nth = r.below(selects + 1); f.arg = r.pick<i64>({EINTR, ENOMEM, EBADF, EINVAL}); break;
    case F_WRITE: f.nth = r.below(writes + 1); f.arg = r.pick<i64>({EPIPE, ENOSPC, EIO, EAGAIN, EINTR}); break;
    case F_SHORT: f.nth = r.below(writes + 1); f.arg = r.chance(0.5) ? r.range(1, 24) : r.range(1, 4000); break;
    default: f.nth = r.below(reads + selects + writes + freads + 3);
    }
    p.faults.push_back(f);
}
static Plan generate(const string &prop, u64 seed, u64 idx) {
    Rng r(mix(mix(seed, hash_str(prop)), idx)); Plan p; p.prop = prop; Knobs k;
    string base = prop;
    if (prop == "C09") base = r.pick<const char *>({"C01", "C02", "C03", "C04", "C05", "C06", "C08", "C09"});
    if (base == "C01") {
        bool fr = r.chance(0.4); k.freq = fr; k.evil_lines = r.chance(0.3); k.sorted = r.chance(0.6); k.wrap = r.chance(0.5); k.maxev = 120; names(r, p, fr);
        if (r.chance(0.6)) { p.has_f = 1; p.fval = r.chance(0.3) ? 0 : pickf(r); }
        gen_events(r, p, k); gen_delivery(r, p, k); if (fr) { gen_freq(r, p, k); if (r.chance(0.1)) late_writer(r, p); } make_args(r, p);
    } else if (base == "C02") {
        names(r, p, false); k.bigdelta = r.chance(0.3); k.maxev = 80; if (r.chance(0.9)) { p.has_f = 1; p.fval = r.chance(0.1) ? 0 : pickf(r); }
        if (p.has_f && r.chance(0.3)) { p.decimal = 1; p.fval = p.fval * 1220703 / 2097151; }
        gen_events(r, p, k); gen_delivery(r, p, k);
        if (r.chance(0.15)) { p.freqname = filename(r, "freq"); p.freq = ""; p.fr_eof = r.chance(0.5) ? -1 : r.range(0, p.in_eof + 1); }
        make_args(r, p);
    } else if (base == "C03") {
        names(r, p, true); k.bigdelta = r.chance(0.4); k.maxev = 80; k.freq = true; k.wrap = r.chance(0.2); if (r.chance(0.5)) { p.has_f = 1; p.fval = pickf(r); }
        gen_events(r, p, k); gen_delivery(r, p, k); gen_freq(r, p, k); if (r.chance(0.1)) late_writer(r, p); make_args(r, p);
    } else if (base == "C04") {
        names(r, p, true); k.bigdelta = true; k.maxev = 60; k.longev = 6000; k.evil_lines = true; if (r.chance(0.5)) { p.has_f = 1; p.fval = pickf(r); }
        k.wrap = true; gen_events(r, p, k);
        gen_delivery(r, p, k); p.incap = {8 * r.range(1, 3)};
        // spread events one by one so that each correction is visible
        if (r.chance(0.7)) { i64 tot = (i64)build_input(p).size(); p.in.clear(); i64 t = 0; i64 g = r.pick<i64>({10, 1000, 100000}); for (i64 q = 0; q < tot; q += 8) { p.in.push_back({t, std::min<i64>(8, tot - q)}); t += r.range(0, g); } p.in_eof = t; }
        gen_freq(r, p, k); make_args(r, p);
    } else if (base == "C05") {
        bool fr = r.chance(0.3); names(r, p, fr); k.wrap = true; k.bigdelta = r.chance(0.8); k.maxev = 100; p.has_f = 1; p.fval = pickf(r);
        gen_events(r, p, k); if (!k.bigdelta && r.chance(0.8) && p.ev.size()) { // walk across the rollover slowly
            u64 mid = p.ev[p.ev.size() / 2] >> 10; for (auto &e : p.ev) { u64 t = ((e >> 10) - mid) & M54; e = (t << 10) | (e & 0x3ff); } }
        gen_delivery(r, p, k); if (fr) gen_freq(r, p, k); make_args(r, p);
    } else if (base == "C06") {
        bool fr = r.chance(0.6); names(r, p, fr); k.maxev = 60; k.bigdelta = r.chance(0.3); k.idle = r.chance(0.5); if (r.chance(0.8)) { p.has_f = 1; p.fval = pickf(r); }
        gen_events(r, p, k); gen_delivery(r, p, k); if (fr) gen_freq(r, p, k); make_args(r, p);
        p.stale = 0;
        // place faults with knowledge of the fault-free run's length: a dry run
        Outcome o = run(p); (void)o; i64 rd = 0, se = 0, wr = 0, fd = 0; for (int i = 0; i < rec->nlog; i++) { LogE &e = rec->log[i]; if (e.kind == L_READ && e.role == R_IN) rd++; if (e.kind == L_READ && e.role == R_FREQ) fd++; if (e.kind == L_WAIT) se++; if (e.kind == L_WRITE && e.res > 0) wr++; }
        int nf = r.chance(0.75) ? 1 : 2; for (int i = 0; i < nf; i++) add_fault(r, p, rd, se, wr, fd);
    } else if (base == "C07") {
        bool fr = r.chance(0.75); names(r, p, fr); k.maxev = 80; k.evil_lines = r.chance(0.3); if (r.chance(0.7)) { p.has_f = 1; p.fval = pickf(r); }
        gen_events(r, p, k); gen_delivery(r, p, k); if (fr) { gen_freq(r, p, k); if (r.chance(0.4)) { p.fr_eof = r.range(0, p.in_eof + 1); for (auto &a : p.fr) a.t = std::min(a.t, p.fr_eof); } if (r.chance(0.15)) { p.freq = ""; p.fr.clear(); p.fr_eof = r.chance(0.5) ? 0 : -1; } }
        if (fr && r.chance(0.35)) late_writer(r, p);
        p.stale = 0; make_args(r, p);
    } else { // C08 and the start-up part of C09
        bool fr = r.chance(0.4); names(r, p, fr); k.bigdelta = true; k.wrap = true; k.maxev = 8; gen_events(r, p, k);
        if (p.ev.size() < 2) { p.ev.clear(); p.ev.push_back(0x1234ull << 10 | 3); p.ev.push_back(((1ull << 53) + 77) << 10 | 5); }
        gen_delivery(r, p, k); if (fr) { p.fr_eof = r.chance(0.5) ? 0 : -1; }
        int mode = (int)r.below(10); p.decimal = r.chance(0.45);
        long double lim = p.decimal ? 1220703.0L : 2097151.0L; string farg; bool isnum = true;
        if (mode < 3) { p.has_f = 1; i64 L = (i64)lim; p.fval = r.pick<i64>({L, -L, L - 1, 1 - L, 0, 1, -1, 2, -2, 7, -7, 1000, -1000, L / 2, -L / 2, r.range(-L, L), r.range(-L, L), r.range(-1000, 1000)}); make_args(r, p); }
        else if (mode < 6) { // out of range
            i64 L = (i64)lim + 1; static const char *big[] = {"2147483647", "-2147483648", "2147483648", "-2147483649", "4294967295", "4294967296", "4294967297", "-4294967297", "4294967396", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551617", "99999999999999999999999", "-99999999999999999999999", "1250000000", "-1250000000", "2500000000", "1073741824", "340282366920938463463374607431768211457", "8589934592", "-8589934599"};
            switch (r.below(4)) { case 0: farg = num(L); break; case 1: farg = num(-L); break; case 2: farg = big[r.below(sizeof big / sizeof *big)]; break; default: { i64 v = L + (i64)(r.logu(60)); if (r.chance(0.5)) v = -v; farg = num(v); } }
            p.has_f = 1; p.expect_refuse = 1; make_args(r, p, &farg); (void)isnum;
        } else if (mode == 6) { farg = r.pick<const char *>({"abc", "x5", "--", "", ".5", "nan", "-", "+", "e3", "-x", "inf", "12abc", "1.5", "1e6", "0x10", "12-", "-3.", "7,5", "568 9", "--7", "1 000"}); p.has_f = 1; p.expect_refuse = 1;
            make_args(r, p, &farg); if (farg.empty()) { p.args.erase(std::remove(p.args.begin(), p.args.end(), string("-f")), p.args.end()); p.args.erase(std::remove(p.args.begin(), p.args.end(), string("")), p.args.end()); p.args.push_back("-f"); p.args.push_back(""); } }
        else if (mode == 7 || mode == 8) { // an open fails
            vector<int> ro; if (p.inname.size()) ro.push_back(R_IN); if (p.outname.size()) ro.push_back(R_OUT); if (p.freqname.size()) ro.push_back(R_FREQ);
            if (ro.empty()) { p.inname = "/dev/shm/in"; ro.push_back(R_IN); }
            int rr = ro[r.below(ro.size())]; p.faults.push_back({F_OPEN, rr, r.pick<i64>({ENOENT, EACCES, ENFILE, EMFILE, ENXIO})}); p.expect_refuse = 1; if (r.chance(0.5)) { p.has_f = 1; p.fval = r.range(-1000, 1000); } make_args(r, p); }
        else { p.faults.push_back({F_MALLOC, (i64)r.below(fr ? 3 : 2), 0}); p.expect_refuse = 1; make_args(r, p); }
        if (prop == "C09" && r.chance(0.3)) { // overlong file names: no memory error, whatever else happens
            string n(r.pick<size_t>({198, 199, 200, 201, 300, 1000}), 'n'); string o = r.pick<const char *>({"-i", "-o", "-F"}); p.args.push_back(o); p.args.push_back(n); if (o == "-i") p.inname = n; if (o == "-F") p.freqname = n; if (o == "-o") p.outname = n; }
    }
    if (p.expect_refuse) p.stale = 0;   // nothing must be written
    p.prop = prop; return p;
}

// ------------------------------------------------------------------ check one plan for its property
struct Res { Verdict v; u64 trace = 0; };
static u64 trace_hash(bool with_data) {
    u64 h = 7; for (int i = 0; i < rec->nlog; i++) { LogE &e = rec->log[i]; h = mix(h, e.kind | e.role << 4 | (u64)e.flag << 8 | (u64)(uint32_t)e.res << 20); if (with_data) h = mix(h, e.t); }
    if (with_data) { h = mix(h, rec->outn); for (i64 i = 0; i < rec->outn; i++) h = (h ^ rec->out[i]) * 1099511628211ull; h = mix(h, rec->rc); } return h;
}
static u64 shape_hash() {   // interleaving: order of operations, alignment of what was delivered, readiness; not sizes or times
    u64 h = 3; i64 c = 0; for (int i = 0; i < rec->nlog; i++) { LogE &e = rec->log[i]; int cls = e.res < 0 ? 3 : e.res == 0 ? 0 : (e.kind == L_READ && e.role == R_IN) ? ((c += e.res), (c & 7) ? 1 : 2) : 1; h = mix(h, e.kind | e.role << 4 | e.flag << 8 | cls << 16); } return h;
}
static Res check_plan(Plan &p, LawStats *ls, u64 *shape = nullptr) {
    Res R; Outcome o = run(p); if (shape) *shape = shape_hash(); R.trace = trace_hash(true);
    if (p.prop == "C09") {
        if (o.san || WIFSIGNALED(o.status)) { Plan q = p; R.v = judge(q, o, nullptr); return R; }
        u64 t1 = R.trace; i64 n1 = rec->outn; int f1 = p.fill; p.fill = 0x00; Outcome o2 = run(p, true); u64 t2 = trace_hash(true); p.fill = f1;
        if (o2.san || WIFSIGNALED(o2.status)) { R.v = judge(p, o2, nullptr); return R; }
        if (t1 != t2 || o.err != o2.err) R.v = bad("uninit", "behaviour depends on the contents of uninitialised memory (" + num(n1) + " vs " + num(rec->outn) + " bytes written)");
        R.trace = t1; return R;
    }
    R.v = judge(p, o, ls); return R;
}

// ------------------------------------------------------------------ minimisation
static Plan shrink(Plan p, const string &cls, int budget) {
    auto fails = [&](Plan &q) { if (budget-- <= 0) return false; q.prop = p.prop; Res r = check_plan(q, nullptr); return r.v.bad && r.v.cls == cls; };
    auto relen = [](Plan &q) { i64 tot = (i64)build_input(q).size(); vector<Arr> v; i64 s = 0; for (auto a : q.in) { if (s >= tot) break; a.n = std::min(a.n, tot - s); s += a.n; v.push_back(a); } if (s < tot) { if (v.empty()) v.push_back({0, tot}); else v.back().n += tot - s; } q.in = v; if (q.in.size() && q.in_eof < q.in.back().t) q.in_eof = q.in.back().t; };
    auto relenf = [](Plan &q) { i64 tot = (i64)q.freq.size(); vector<Arr> v; i64 s = 0; for (auto a : q.fr) { if (s >= tot) break; a.n = std::min(a.n, tot - s); s += a.n; v.push_back(a); } if (s < tot) { if (v.empty()) v.push_back({0, tot}); else v.back().n += tot - s; } q.fr = v; };
    bool go = true;
    while (go && budget > 0) {
        go = false; Plan q;
        auto attempt = [&](std::function<void(Plan &)> f) { q = p; f(q); if (show(q) != show(p) && fails(q)) { p = q; go = true; return true; } return false; };
        for (size_t n = std::max<size_t>(1, p.ev.size() / 2); n >= 1 && budget > 0; n /= 2) for (size_t i = 0; i < p.ev.size() && budget > 0;) { if (!attempt([&](Plan &x) { x.ev.erase(x.ev.begin() + i, x.ev.begin() + std::min(i + n, x.ev.size())); relen(x); })) i += n; }
        for (size_t i = p.faults.size(); i-- > 0;) attempt([&](Plan &x) { x.faults.erase(x.faults.begin() + i); });
        attempt([&](Plan &x) { x.tail.clear(); relen(x); });
        { vector<string> ls; string cur; for (char c : p.freq) { cur += c; if (c == '\n') { ls.push_back(cur); cur.clear(); } } if (cur.size()) ls.push_back(cur);
          for (size_t i = ls.size(); i-- > 0;) { attempt([&](Plan &x) { auto l2 = ls; l2.erase(l2.begin() + i); x.freq.clear(); for (auto &s : l2) x.freq += s; relenf(x); }) && (ls.erase(ls.begin() + i), true); } }
        for (size_t n = std::max<size_t>(1, p.in.size() / 2); n >= 1 && budget > 0; n /= 2) for (size_t i = 0; i + 1 < p.in.size() && budget > 0;) { if (!attempt([&](Plan &x) { for (size_t m = 0; m < n && i + 1 < x.in.size(); m++) { x.in[i + 1].n += x.in[i].n; x.in[i + 1].t = x.in[i].t; x.in.erase(x.in.begin() + i); } })) i += n; }
        for (size_t n = std::max<size_t>(1, p.fr.size() / 2); n >= 1 && budget > 0; n /= 2) for (size_t i = 0; i + 1 < p.fr.size() && budget > 0;) { if (!attempt([&](Plan &x) { for (size_t m = 0; m < n && i + 1 < x.fr.size(); m++) { x.fr[i + 1].n += x.fr[i].n; x.fr[i + 1].t = x.fr[i].t; x.fr.erase(x.fr.begin() + i); } })) i += n; }
        attempt([](Plan &x) { x.incap.clear(); }); attempt([](Plan &x) { x.frcap.clear(); }); attempt([](Plan &x) { x.wdelay.clear(); }); attempt([](Plan &x) { x.cost.clear(); });
        attempt([](Plan &x) { x.stale = 0; }); attempt([](Plan &x) { x.fr_eof = -1; }); attempt([](Plan &x) { x.fr_open = 0; });
        attempt([](Plan &x) { for (size_t i = 0; i < x.in.size(); i++) x.in[i].t = (i64)i; x.in_eof = x.in.size(); });
        attempt([](Plan &x) { for (auto &e : x.ev) e &= ~0x3ffull; });
        for (size_t i = 0; i < p.ev.size() && p.ev.size() <= 12; i++) attempt([&](Plan &x) { u64 m = 1ull << 63; u64 t = x.ev[i]; while (m && !(t & m)) m >>= 1; x.ev[i] = m; });
    }
    return p;
}

// ------------------------------------------------------------------ driver
struct Shared { std::atomic<u64> minviol, runs, nontriv, simus, injected[F_NK], batches, fused, wraps, zero_reads, torn, refused, calls, waits, ev, fchanges; std::atomic<u64> nset, agg; std::atomic<u64> set[1 << 21]; };
static Shared *sh;
static void insert(u64 h) { if (!h) h = 1; u64 m = (1 << 21) - 1; for (u64 i = h & m, n = 0; n < 64; i = (i + 1) & m, n++) { u64 z = 0; if (sh->set[i] == h) return; if (sh->set[i].compare_exchange_strong(z, h)) { sh->nset++; return; } if (z == h) return; } }
static string slurp(const char *f) { FILE *h = fopen(f, "rb"); if (!h) { perror(f); exit(3); } string s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n); fclose(h); return s; }
static string jstr(const string &s) { string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }

int main(int argc, char **argv) {
    string prop = "C01", replay, out, execp; u64 seed = 1, runs = 1000; int workers = 8; bool dump = false; i64 only = -1;
    for (int i = 1; i < argc; i++) { string a = argv[i]; auto nx = [&] { return string(argv[++i]); };
        if (a == "--prop") prop = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--runs") runs = strtoull(nx().c_str(), 0, 10); else if (a == "--workers") workers = atoi(nx().c_str());
        else if (a == "--replay") replay = nx(); else if (a == "--out") out = nx(); else if (a == "--exec") execp = nx(); else if (a == "--dump") dump = true; else if (a == "--only") only = atoll(nx().c_str()); else { fprintf(stderr, "bad option %s\n", a.c_str()); return 3; } }
    auto maprec = [] { rec = (Rec *)mmap(nullptr, sizeof(Rec), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (rec == MAP_FAILED) { perror("mmap"); exit(3); } };
    maprec();
    if (execp.size()) {
        Plan p; if (!parse(slurp(execp.c_str()), p)) return 3; Outcome o = run(p); FILE *f = fopen(p.out_path.c_str(), "wb"); if (!f) return 3; fwrite(rec->out, 1, rec->outn, f); fclose(f);
        printf("{\"exited\": %d, \"rc\": %d, \"signal\": %d, \"online\": %d, \"calls\": %d, \"bytes\": %lld, \"trace\": \"%016llx\", \"stderr\": %s}\n", rec->exited, rec->rc, WIFSIGNALED(o.status) ? WTERMSIG(o.status) : 0, rec->online, rec->nlog, (long long)rec->outn, (unsigned long long)trace_hash(true), jstr(o.err).c_str()); return 0;
    }
    if (replay.size() || only >= 0) {
        Plan p; if (replay.size()) { if (!parse(slurp(replay.c_str()), p)) { fprintf(stderr, "cannot parse replay file\n"); return 3; } } else p = generate(prop, seed, (u64)only);
        if (only >= 0 && replay.empty()) printf("%s", show(p).c_str());
        Res r = check_plan(p, nullptr);
        if (dump) { Outcome o = run(p); for (int i = 0; i < rec->nlog; i++) { static const char *kn[] = {"read", "write", "wait", "open", "malloc", "close", "sleep"}; static const char *rn[] = {"", "in", "out", "freq"}; LogE &e = rec->log[i]; printf("  t=%-10llu %-6s %-4s = %lld%s ready=%d\n", (unsigned long long)e.t, kn[e.kind], rn[e.role], (long long)e.res, e.err ? (string(" ") + strerror(e.err)).c_str() : "", e.flag); } printf("  stderr: %s", o.err.c_str()); printf("  exited=%d rc=%d out=%lld bytes:", rec->exited, rec->rc, (long long)rec->outn); for (i64 i = 0; i < rec->outn / 8; i++) { u64 e = out_event(p, i); printf(" %llx.%llx", (unsigned long long)(e >> 10), (unsigned long long)(e & 0x3ff)); } printf("\n"); }
        printf("trace %016llx\n", (unsigned long long)r.trace);
        if (r.v.bad) { printf("BAD %s\n", r.v.what.c_str()); return 1; } printf("OK\n"); return 0;
    }
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); sh->minviol = ~0ull;
    vector<pid_t> kids;
    for (int w = 0; w < workers; w++) {
        fflush(stdout); pid_t c = fork(); if (c) { kids.push_back(c); continue; }
        maprec();
        for (u64 i = w; i < runs; i += workers) {
            if (i > sh->minviol) break;
            Plan p = generate(prop, seed, i); LawStats ls; u64 shape = 0; Res r = check_plan(p, &ls, &shape);
            sh->runs++; sh->agg += mix(r.trace, i); sh->simus += rec->now; sh->calls += rec->nlog; for (int k = 0; k < F_NK; k++) sh->injected[k] += rec->injected[k];
            sh->batches += ls.batches; sh->fused += ls.fused; sh->wraps += ls.wraps; sh->zero_reads += ls.zero_reads; sh->torn += ls.torn; sh->ev += rec->outn / 8; if (ls.fs.size() > 1) sh->fchanges++;
            if (p.expect_refuse) sh->refused++;
            for (int q = 0; q < rec->nlog; q++) if (rec->log[q].kind == L_WAIT && rec->log[q].res == 0) sh->waits++;
            if (rec->nlog > 6 || p.expect_refuse) { sh->nontriv++; insert(p.expect_refuse ? mix(shape, hash_str(show(p))) : shape); }
            if (r.v.bad) { u64 m = sh->minviol; while (i < m && !sh->minviol.compare_exchange_weak(m, i)) {} break; }
        }
        _exit(0);
    }
    bool broken = false; for (pid_t c : kids) { int st; waitpid(c, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) broken = true; }
    if (broken) { fprintf(stderr, "harness worker failed\n"); return 3; }
    string js = "{\"runs\": " + num(sh->runs) + ", \"nontrivial\": " + num(sh->nontriv) + ", \"distinct\": " + num(sh->nset) + ", \"sim_us\": " + num(sh->simus) + ", \"syscalls\": " + num(sh->calls) + ", \"idle_waits\": " + num(sh->waits) + ", \"events_delivered\": " + num(sh->ev) + ", \"batches\": " + num(sh->batches) + ", \"reads_without_complete_event\": " + num(sh->zero_reads) + ", \"reads_ending_inside_event\": " + num(sh->torn) + ", \"rollovers\": " + num(sh->wraps) + ", \"runs_with_offset_change\": " + num(sh->fchanges) + ", \"runs_refused\": " + num(sh->refused) + ", \"faults\": {";
    for (int k = 0; k < F_NK; k++) js += string(k ? ", " : "") + "\"" + fkname[k] + "\": " + num(sh->injected[k]); js += "}";
    { char b[40]; snprintf(b, sizeof b, ", \"aggregate_trace\": \"%016llx\"", (unsigned long long)sh->agg.load()); js += b; }
    js += ", \"samples\": ["; for (u64 i = 0; i < 2; i++) { string s = show(generate(prop, seed, i)); if (s.size() > 1500) s = s.substr(0, 1500) + "..."; js += string(i ? ", " : "") + jstr(s); } js += "]";
    int rc = 0;
    if (sh->minviol != ~0ull) {
        u64 i = sh->minviol; Plan p = generate(prop, seed, i); Res r = check_plan(p, nullptr);
        for (int k = 0; k < 5 && !r.v.bad; k++) r = check_plan(p, nullptr);
        if (!r.v.bad) { fprintf(stderr, "run %llu is not repeatable\n", (unsigned long long)i); return 3; }
        Plan q = shrink(p, r.v.cls, 1500); Res r2 = check_plan(q, nullptr); if (!r2.v.bad) { q = p; r2 = r; }
        char th[32]; snprintf(th, sizeof th, "%016llx", (unsigned long long)r2.trace);
        string f = out + "/replay.txt"; FILE *h = fopen(f.c_str(), "wb"); string s = "# seed " + num(seed) + " run " + num(i) + "\n# " + r2.v.what + "\n# trace " + th + "\n" + show(q); fwrite(s.data(), 1, s.size(), h); fclose(h);
        js += ", \"violation\": {\"run\": " + num(i) + ", \"what\": " + jstr(r2.v.what) + ", \"trace\": \"" + th + "\"}"; rc = 1;
    }
    js += "}\n"; FILE *h = fopen((out + "/result.json").c_str(), "wb"); if (!h) { perror("result"); return 3; } fwrite(js.data(), 1, js.size(), h); fclose(h); return rc;
}

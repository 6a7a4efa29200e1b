#include "pbt.hpp"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <dirent.h>
#include <time.h>
#include <unistd.h>
#include <vector>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
extern "C" const char *__asan_default_options() {
	return "detect_leaks=0:hard_rss_limit_mb=3000:allocator_may_return_null=0:"
		"max_malloc_fill_size=65536:malloc_fill_byte=183:handle_abort=0:"
		"detect_stack_use_after_return=0:symbolize=1:exitcode=66:allow_user_segv_handler=1";
}
#endif
#endif

namespace pbt {

enum { MaxChoices = 1 << 17, MaxLabels = 96, MaxSamples = 4, SampleLen = 1200,
	MaxKnown = 16, DistinctBits = 22, MaxWorkers = 16 };

enum { Idle, Running, Failed, Done };

struct Worker {
	std::atomic<uint64_t> casenum;	// 1 + index of the case being run
	std::atomic<int> state;
	uint32_t nchoices;
	bool overrun;
	uint64_t choices[MaxChoices];
	char msg[4096];
	char desc[16384];
	char knownid[64];
};

struct Label { char name[48]; std::atomic<unsigned long> n; };
struct Known { char id[64]; char msg[600]; std::atomic<unsigned long> n; };

struct Shared {
	Worker w[MaxWorkers];
	std::atomic<unsigned long> evals, discards, nontrivial, distinct, overruns;
	std::atomic<int> lock;
	unsigned nlabels; Label labels[MaxLabels];
	unsigned nsamples; char samples[MaxSamples][SampleLen];
	unsigned nknown; Known known[MaxKnown];
	std::atomic<uint64_t> seen[1 << DistinctBits];
};

static Shared *sh;
static Worker *me;
static std::string scratchdir, scratchroot;
static std::vector<Prop> &props() { static std::vector<Prop> p; return p; }

struct Locked {
	Locked() { int z = 0; while (!sh->lock.compare_exchange_weak(z, 1)) { z = 0; usleep(10); } }
	~Locked() { sh->lock = 0; }
};

int reg(const char *name, PropFn fn, unsigned long q, unsigned long t, const char *rule, double cpu) {
	props().push_back(Prop{name, fn, q, t, rule, cpu});
	return 0;
}

std::string strf(const char *fmt, ...) {
	va_list ap; va_start(ap, fmt);
	char *p = NULL;
	if (vasprintf(&p, fmt, ap) < 0) abort();
	va_end(ap);
	std::string s(p); free(p);
	return s;
}

const std::string &scratch() { return scratchdir; }

static void rmtree(const std::string &d, bool self) {
	if (scratchroot.empty() || d.compare(0, scratchroot.size(), scratchroot) != 0) return;
	DIR *dir = opendir(d.c_str());
	if (!dir) return;
	while (struct dirent *e = readdir(dir)) {
		std::string n = e->d_name;
		if (n == "." || n == "..") continue;
		std::string p = d + "/" + n;
		struct stat sb;
		if (lstat(p.c_str(), &sb) != 0) continue;
		if (S_ISDIR(sb.st_mode)) rmtree(p, true);
		else unlink(p.c_str());
	}
	closedir(dir);
	if (self) rmdir(d.c_str());
}

void clearscratch() { rmtree(scratchdir, false); }

// --- choices

static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t next(uint64_t s[4]) {	// xoshiro256**
	uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
	s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
	return r;
}
static uint64_t splitmix(uint64_t &x) {
	uint64_t z = (x += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
static uint64_t strhash(const char *s) {
	uint64_t h = 1469598103934665603ull;
	for (; *s; s++) h = (h ^ (unsigned char) *s) * 1099511628211ull;
	return h;
}

uint64_t Case::draw(uint64_t n) {
	uint64_t v = 0;
	if (n == 0) n = 1;
	if (pos >= MaxChoices) { me->overrun = true; return 0; }
	if (generating) v = n == 1 ? 0 : next(rng) % n;
	else if (pos < input.size()) v = input[pos] % n;
	me->choices[pos++] = v;
	me->nchoices = pos;
	return v;
}

long Case::size(long lo, long hi) {
	uint64_t n = hi - lo + 1;
	switch (draw(3)) {
	case 0: return lo + draw(std::min<uint64_t>(n, 1 + n / 6));
	case 1: return lo + draw(std::min<uint64_t>(n, 1 + n / 2));
	default: return lo + draw(n);
	}
}

void Case::fail(const char *fmt, ...) {
	char buf[4000];
	va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
	throw Failure{buf};
}

void Case::known(const char *id, const char *fmt, ...) {
	char buf[4000];
	va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
	throw KnownFailure{id, buf};
}

void Case::desc(const char *fmt, ...) {
	size_t l = strlen(me->desc);
	if (l + 2 >= sizeof me->desc) return;
	va_list ap; va_start(ap, fmt);
	vsnprintf(me->desc + l, sizeof me->desc - l, fmt, ap);
	va_end(ap);
}

void Case::label(const char *name, unsigned long n) {
	for (unsigned i = 0; i < sh->nlabels; i++)
		if (!strcmp(sh->labels[i].name, name)) { sh->labels[i].n += n; return; }
	Locked l;
	unsigned i;
	for (i = 0; i < sh->nlabels; i++)
		if (!strcmp(sh->labels[i].name, name)) break;
	if (i == sh->nlabels) {
		if (i == MaxLabels) return;
		snprintf(sh->labels[i].name, sizeof sh->labels[i].name, "%s", name);
		sh->labels[i].n = 0;
		sh->nlabels++;
	}
	sh->labels[i].n += n;
}

static double cpunow() {
	struct timespec ts; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
	return ts.tv_sec + ts.tv_nsec * 1e-9;
}
static double wallnow() {
	struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
	return ts.tv_sec + ts.tv_nsec * 1e-9;
}
static double cpuof(pid_t p) {
	clockid_t id; struct timespec ts;
	if (clock_getcpuclockid(p, &id) != 0 || clock_gettime(id, &ts) != 0) return -1;
	return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static std::string readfile(const std::string &p, size_t max = 1 << 16) {
	std::string s;
	FILE *f = fopen(p.c_str(), "r");
	if (!f) return s;
	s.resize(max);
	s.resize(fread(&s[0], 1, max, f));
	fclose(f);
	return s;
}

int Case::sub(const std::function<void()> &f, std::string *err) {
	std::string path = scratchdir + ".suberr";
	pid_t p = fork();
	if (p == 0) {
		int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
		if (fd >= 0) { dup2(fd, 2); close(fd); }
		struct rlimit rl = { 20, 21 };
		setrlimit(RLIMIT_CPU, &rl);
		try { f(); } catch (Failure &x) { fprintf(stderr, "%s\n", x.msg.c_str()); _exit(97); }
		catch (...) { _exit(98); }
		fflush(NULL);
		_exit(0);
	}
	int st = 0;
	while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
	if (err) *err = readfile(path, 4096);
	unlink(path.c_str());
	if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) return -1;
	return st;
}

// --- running cases

enum Kind { Ok, Discarded, KnownK, Fail, Crash, Exit, Hang, Oom };
static const char *kindname[] = { "ok", "discarded", "known", "fail", "crash", "exit", "hang", "memory" };

// runone runs one case in this process.
static Kind runone(const Prop &p, Case &c) {
	me->msg[0] = me->desc[0] = me->knownid[0] = '\0';
	me->nchoices = 0;
	me->overrun = false;
	try {
		p.fn(c);
	} catch (Discard&) {
		return Discarded;
	} catch (KnownFailure &k) {
		snprintf(me->knownid, sizeof me->knownid, "%s", k.id.c_str());
		snprintf(me->msg, sizeof me->msg, "%s", k.msg.c_str());
		return KnownK;
	} catch (Failure &f) {
		snprintf(me->msg, sizeof me->msg, "%s", f.msg.c_str());
		return Fail;
	} catch (std::exception &e) {
		snprintf(me->msg, sizeof me->msg, "unexpected exception: %s", e.what());
		return Fail;
	} catch (...) {
		snprintf(me->msg, sizeof me->msg, "unexpected exception");
		return Fail;
	}
	return Ok;
}

static std::set<std::string> knownids;
static std::string errpath(int w) { return scratchroot + strf("/err%d", w); }

static void childsetup(int w, const char *tag) {
	me = &sh->w[w];
	scratchdir = scratchroot + strf("/%s%d", tag, w);
	mkdir(scratchdir.c_str(), 0700);
	if (chdir(scratchdir.c_str()) != 0) _exit(3);
	int fd = open("/dev/null", O_RDWR);
	dup2(fd, 0); dup2(fd, 1); close(fd);
	fd = open(errpath(w).c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
	dup2(fd, 2); close(fd);
	struct rlimit rl = { 0, 0 };
	setrlimit(RLIMIT_CORE, &rl);
}

static void trimerr() {	// keep the stderr file small
	struct stat sb;
	if (fstat(2, &sb) == 0 && sb.st_size > (1 << 20)) { if (ftruncate(2, 0) != 0) {} }
}

static void seedcase(Case &c, uint64_t seed, const char *name, uint64_t idx) {
	uint64_t x = seed * 0x2545f4914f6cdd1dull ^ strhash(name) ^ (idx + 1) * 0x9e3779b97f4a7c15ull;
	for (int i = 0; i < 4; i++) c.rng[i] = splitmix(x);
}

static void workerloop(const Prop &p, int w, int nw, unsigned long n, uint64_t seed, double deadline) {
	childsetup(w, "w");
	for (unsigned long i = w; i < n; i += nw) {
		if (wallnow() > deadline) break;
		Case c;
		seedcase(c, seed, p.name, i);
		me->casenum = i + 1;
		me->state = Running;
		Kind k = runone(p, c);
		if (me->overrun) sh->overruns++;
		if (k == Discarded) { sh->discards++; continue; }
		sh->evals++;
		if (k == KnownK && knownids.count(me->knownid)) {
			Locked l;
			unsigned j;
			for (j = 0; j < sh->nknown; j++)
				if (!strcmp(sh->known[j].id, me->knownid)) break;
			if (j == sh->nknown && j < MaxKnown) {
				snprintf(sh->known[j].id, 64, "%s", me->knownid);
				snprintf(sh->known[j].msg, 600, "%s", me->msg);
				sh->known[j].n = 0;
				sh->nknown++;
			}
			if (j < MaxKnown) sh->known[j].n++;
			k = Ok;
		}
		if (k != Ok) { me->state = Failed; _exit(k == Fail || k == KnownK ? 99 : 98); }
		if (c.nontriv) {
			sh->nontrivial++;
			uint64_t h = 0x12345;
			for (uint32_t j = 0; j < me->nchoices; j++) { h ^= me->choices[j] + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 29; }
			if (h == 0) h = 1;
			uint64_t mask = (1ull << DistinctBits) - 1;
			for (uint64_t j = h & mask, t = 0; t < 256; j = (j + 1) & mask, t++) {
				uint64_t z = 0;
				if (sh->seen[j].compare_exchange_strong(z, h)) { sh->distinct++; break; }
				if (z == h) break;
			}
			if (sh->nsamples < MaxSamples && me->desc[0]) {
				Locked l;
				if (sh->nsamples < MaxSamples)
					snprintf(sh->samples[sh->nsamples++], SampleLen, "%s", me->desc);
			}
		}
		trimerr();
	}
	me->state = Done;
	_exit(0);
}

struct Outcome { Kind kind; std::string msg, desc, err; std::vector<uint64_t> choices; };

static std::string statusmsg(int st) {
	if (WIFSIGNALED(st)) return strf("killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
	return strf("the code under test ended the process with status %d", WEXITSTATUS(st));
}

static std::string errsummary(const std::string &e) {
	// The most telling line of stderr.
	static const char *keys[] = { "ERROR: AddressSanitizer", "Assertion", "assertion", "runtime error", "hard rss limit", "terminate called", NULL };
	for (int k = 0; keys[k]; k++) {
		size_t i = e.find(keys[k]);
		if (i == std::string::npos) continue;
		size_t b = e.rfind('\n', i); b = b == std::string::npos ? 0 : b + 1;
		return e.substr(b, e.find('\n', i) - b);
	}
	size_t n = e.size();
	while (n > 0 && e[n - 1] == '\n') n--;
	size_t b = n ? e.rfind('\n', n - 1) : std::string::npos;
	b = b == std::string::npos ? 0 : b + 1;
	return e.substr(b, std::min<size_t>(n - b, 300));
}

static Outcome outcome(int w, Kind k, int st, const std::string &err) {
	Outcome o;
	o.kind = k;
	o.msg = sh->w[w].msg;
	o.desc = sh->w[w].desc;
	o.err = err;
	o.choices.assign(sh->w[w].choices, sh->w[w].choices + sh->w[w].nchoices);
	if (k == Crash || k == Exit) o.msg = statusmsg(st) + ": " + errsummary(err);
	if (k == Hang) o.msg = "did not terminate within the CPU limit";
	return o;
}

static Kind classify(int st, const std::string &err) {
	if (WIFEXITED(st) && WEXITSTATUS(st) == 99) return Fail;
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return Ok;
	if (WIFEXITED(st) && WEXITSTATUS(st) == 97) return Discarded;
	if (err.find("hard rss limit") != std::string::npos) return Crash;
	if (WIFSIGNALED(st)) return Crash;
	return Exit;
}

// runchoices runs a choice sequence in a child process.
static Outcome runchoices(const Prop &p, const std::vector<uint64_t> &ch, double cpulimit, bool passknown) {
	int w = MaxWorkers - 1;
	sh->w[w].state = Idle;
	sh->w[w].nchoices = 0;
	sh->w[w].msg[0] = sh->w[w].desc[0] = '\0';
	fflush(NULL);
	pid_t pid = fork();
	if (pid == 0) {
		childsetup(w, "s");
		clearscratch();
		Case c;
		c.generating = false;
		c.input = ch;
		Kind k = runone(p, c);
		if (k == KnownK && passknown && knownids.count(me->knownid)) k = Ok;
		_exit(k == Ok ? 0 : k == Discarded ? 97 : 99);
	}
	int st = 0;
	bool hang = false;
	double start = wallnow();
	for (;;) {
		pid_t r = waitpid(pid, &st, WNOHANG);
		if (r == pid) break;
		if (cpuof(pid) > cpulimit || wallnow() - start > 10 * cpulimit + 60) {
			hang = true;
			kill(pid, SIGKILL);
			waitpid(pid, &st, 0);
			break;
		}
		usleep(wallnow() - start < 0.05 ? 200 : 5000);
	}
	std::string err = readfile(errpath(w));
	return outcome(w, hang ? Hang : classify(st, err), st, err);
}

static bool isbad(Kind k) { return k >= Fail; }

static Outcome shrink(const Prop &p, Outcome best, double budget) {
	double t0 = wallnow();
	double lim = best.kind == Hang ? p.cpulimit : std::min(p.cpulimit, 10.0);
	auto left = [&] { return wallnow() - t0 < budget; };
	auto attempt = [&](const std::vector<uint64_t> &ch) {
		Outcome o = runchoices(p, ch, lim, true);
		if (o.kind != best.kind) return false;
		if (o.choices.size() > best.choices.size()) return false;
		if (o.choices.size() == best.choices.size() && !(o.choices < best.choices)) return false;
		best = o;
		return true;
	};
	bool progress = true;
	while (progress && left()) {
		progress = false;
		for (size_t k = std::max<size_t>(1, best.choices.size() / 2); k >= 1 && left(); k /= 2) {
			for (size_t i = best.choices.size(); i > 0 && left(); ) {
				i = i > k ? i - k : 0;
				std::vector<uint64_t> ch = best.choices;
				if (i >= ch.size()) continue;
				ch.erase(ch.begin() + i, ch.begin() + std::min(ch.size(), i + k));
				if (attempt(ch)) { progress = true; continue; }
				// delete the block while lowering the choice before it
				// (often the length of the list the block is in)
				if (k <= 4 && i > 0 && best.choices[i - 1] > 0 && i + k <= best.choices.size()) {
					ch = best.choices;
					ch[i - 1]--;
					ch.erase(ch.begin() + i, ch.begin() + i + k);
					if (attempt(ch)) progress = true;
				}
			}
		}
		for (size_t k = 8; k >= 1 && left(); k /= 2) {
			for (size_t i = 0; i + k <= best.choices.size() && left(); i += k) {
				std::vector<uint64_t> ch = best.choices;
				bool nz = false;
				for (size_t j = i; j < i + k; j++) { nz |= ch[j] != 0; ch[j] = 0; }
				if (nz && attempt(ch)) progress = true;
			}
		}
		for (size_t i = 0; i < best.choices.size() && left(); i++) {
			uint64_t lo = 0;	// known not to fail
			while (i < best.choices.size() && best.choices[i] > lo + 1 && left()) {
				std::vector<uint64_t> ch = best.choices;
				ch[i] = lo + (best.choices[i] - lo) / 2;
				if (attempt(ch)) progress = true; else lo = ch[i];
			}
			if (i < best.choices.size() && best.choices[i] > 0) {
				std::vector<uint64_t> ch = best.choices;
				ch[i]--;
				if (attempt(ch)) progress = true;
			}
		}
		// lower a length and delete something later
		for (size_t i = 0; i < best.choices.size() && i < 40 && left(); i++) {
			if (best.choices[i] == 0) continue;
			for (size_t k = 1; k <= 3; k++) for (size_t j = i + 1; j + k <= best.choices.size() && j < i + 60 && left(); j++) {
				std::vector<uint64_t> ch = best.choices;
				ch[i]--;
				ch.erase(ch.begin() + j, ch.begin() + j + k);
				if (attempt(ch)) { progress = true; if (i >= best.choices.size() || best.choices[i] == 0) goto nexti; }
			}
nexti: ;
		}
	}
	return best;
}

static std::string jstr(const std::string &s) {
	std::string r = "\"";
	for (unsigned char ch : s) {
		if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
		else if (ch == '\n') r += "\\n";
		else if (ch == '\t') r += "\\t";
		else if (ch < 32 || ch > 126) r += strf("\\u%04x", ch);
		else r += ch;
	}
	return r + "\"";
}

struct Args {
	std::string property = "P00", tier = "quick", out, replaydir = ".", replay, only, binary;
	uint64_t seed = 1;
	double cap = 120, scale = 1;
	int workers = 8;
};

static std::string writereplay(const Args &a, const Prop &p, const Outcome &o) {
	std::string path = a.replaydir + "/" + a.property + "-" + p.name + ".replay";
	FILE *f = fopen(path.c_str(), "w");
	if (!f) { fprintf(stderr, "cannot write %s\n", path.c_str()); return path; }
	fprintf(f, "property %s\nbinary %s\nprop %s\nkind %s\nseed %lu\nchoices", a.property.c_str(), a.binary.c_str(), p.name, kindname[o.kind], (unsigned long) a.seed);
	for (uint64_t c : o.choices) fprintf(f, " %lu", (unsigned long) c);
	fprintf(f, "\n--- failure\n%s\n--- case\n%s\n", o.msg.c_str(), o.desc.c_str());
	if (isbad(o.kind) && o.kind != Fail) fprintf(f, "--- stderr\n%.6000s\n", o.err.c_str());
	fclose(f);
	return path;
}

// runprop explores one property. Returns true if it held.
static bool runprop(const Args &a, const Prop &p, std::string &json) {
	memset((void*) sh, 0, sizeof *sh);
	double start = wallnow(), deadline = start + a.cap;
	unsigned long n = (a.tier == "thorough" ? p.thorough : p.quick) * a.scale;
	if (n < 1) n = 1;
	int nw = a.workers;
	if ((unsigned long) nw > n) nw = n;
	std::vector<pid_t> pids(nw, -1);
	std::vector<uint64_t> lastcase(nw, 0);
	std::vector<double> casecpu(nw, 0), casewall(nw, start);
	fflush(NULL);
	for (int w = 0; w < nw; w++) {
		pid_t pid = fork();
		if (pid < 0) { perror("fork"); exit(2); }
		if (pid == 0) workerloop(p, w, nw, n, a.seed, deadline);
		pids[w] = pid;
	}
	int live = nw, badw = -1;
	int badst = 0;
	Kind badkind = Ok;
	while (live > 0 && badw < 0) {
		int st;
		pid_t r = waitpid(-1, &st, WNOHANG);
		if (r > 0) {
			int w = -1;
			for (int i = 0; i < nw; i++) if (pids[i] == r) w = i;
			if (w < 0) continue;
			pids[w] = -1;
			live--;
			if (sh->w[w].state == Done && WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
			badw = w; badst = st;
			break;
		}
		for (int w = 0; w < nw; w++) {
			if (pids[w] < 0) continue;
			double cpu = cpuof(pids[w]), now = wallnow();
			uint64_t cn = sh->w[w].casenum;
			if (cn != lastcase[w]) { lastcase[w] = cn; casecpu[w] = cpu; casewall[w] = now; }
			else if (cn && (cpu - casecpu[w] > p.cpulimit || now - casewall[w] > 10 * p.cpulimit + 100)) {
				kill(pids[w], SIGKILL);
				waitpid(pids[w], &st, 0);
				pids[w] = -1; live--;
				badw = w; badkind = Hang;
				break;
			}
		}
		usleep(2000);
	}
	for (int w = 0; w < nw; w++)
		if (pids[w] > 0) { kill(pids[w], SIGKILL); int st; waitpid(pids[w], &st, 0); }

	bool held = true;
	std::string warn;
	if (badw >= 0) {
		std::string err = readfile(errpath(badw));
		if (badkind != Hang) badkind = classify(badst, err);
		if (badkind == Ok) badkind = Exit;	// the code under test called exit(0)
		Outcome first = outcome(badw, badkind, badst, err);
		unsigned long idx = sh->w[badw].casenum;
		// Replay it on its own.
		Outcome o = first;
		bool repro = false;
		for (int t = 0; t < 3 && !repro; t++) {
			o = runchoices(p, first.choices, p.cpulimit, true);
			// a case cut short by a crash replays with zeros after the cut
			repro = isbad(o.kind);
		}
		if (!repro && !first.choices.empty()) {
			// The choices after the crash were not drawn yet; draw them as before.
			Outcome g = first;
			int w = MaxWorkers - 1;
			fflush(NULL);
			pid_t pid = fork();
			if (pid == 0) {
				childsetup(w, "s");
				// Run this worker's whole history: the failure may depend on it.
				for (unsigned long i = badw; i < idx; i += nw) {
					Case c;
					seedcase(c, a.seed, p.name, i);
					Kind k = runone(p, c);
					if (k == KnownK && knownids.count(me->knownid)) k = Ok;
					if (k == Fail || k == KnownK) _exit(99);
				}
				_exit(0);
			}
			int st = 0;
			double cpulim = cpuof(pid) + a.cap + p.cpulimit;
			bool hang = false;
			for (;;) {
				pid_t r = waitpid(pid, &st, WNOHANG);
				if (r == pid) break;
				if (cpuof(pid) > cpulim) { hang = true; kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
				usleep(5000);
			}
			std::string e2 = readfile(errpath(w));
			Kind k2 = hang ? Hang : classify(st, e2);
			if (isbad(k2)) { o = outcome(w, k2, st, e2); repro = true; o.msg += " (reproduces only after the preceding cases of the run)"; }
			(void) g;
		} else if (repro) {
			o = shrink(p, o, a.tier == "thorough" ? 90 : 25);
		}
		if (repro) {
			held = false;
			std::string path = writereplay(a, p, o);
			printf("%s/%s: %s: %s\n", a.property.c_str(), p.name, kindname[o.kind], o.msg.c_str());
			printf("%s\n", o.desc.substr(0, 3000).c_str());
			printf("VIOLATION property=%s replay=%s\n", a.property.c_str(), path.c_str());
		} else {
			warn = strf("case %lu of %s ended with %s (%s) but did not reproduce; ignored", idx, p.name, kindname[badkind], first.msg.c_str());
			printf("WARNING: %s\n", warn.c_str());
		}
	}
	for (unsigned i = 0; i < sh->nknown; i++)
		printf("KNOWN-FINDING: property=%s %s: %s (%lu cases)\n", a.property.c_str(), sh->known[i].id, sh->known[i].msg, sh->known[i].n.load());
	json += strf("{\"prop\": %s, \"rule\": %s, \"evaluations\": %lu, \"discarded\": %lu, \"nontrivial\": %lu, \"distinct_nontrivial\": %lu, \"requested\": %lu, \"violations\": %d, \"wall_s\": %.2f",
		jstr(p.name).c_str(), jstr(p.rule).c_str(), sh->evals.load(), sh->discards.load(), sh->nontrivial.load(), sh->distinct.load(), n, held ? 0 : 1, wallnow() - start);
	json += ", \"labels\": {";
	for (unsigned i = 0; i < sh->nlabels; i++)
		json += strf("%s%s: %lu", i ? ", " : "", jstr(sh->labels[i].name).c_str(), sh->labels[i].n.load());
	json += "}, \"samples\": [";
	for (unsigned i = 0; i < sh->nsamples; i++)
		json += (i ? ", " : "") + jstr(sh->samples[i]);
	json += "]";
	if (!warn.empty()) json += ", \"warning\": " + jstr(warn);
	json += "}";
	printf("%s/%s: %s, %lu cases, %lu distinct non-trivial, %lu discarded, %.1fs%s\n", a.property.c_str(), p.name, held ? "held" : "VIOLATED",
		sh->evals.load(), sh->distinct.load(), sh->discards.load(), wallnow() - start, sh->overruns.load() ? strf(", %lu overruns", sh->overruns.load()).c_str() : "");
	fflush(stdout);
	return held;
}

static int replayfile(const Args &a) {
	FILE *f = fopen(a.replay.c_str(), "r");
	if (!f) { perror(a.replay.c_str()); return 2; }
	std::string prop;
	std::vector<uint64_t> ch;
	char *line = NULL; size_t cap = 0;
	while (getline(&line, &cap, f) > 0) {
		if (!strncmp(line, "prop ", 5)) { prop = line + 5; prop.erase(prop.find_last_not_of("\n") + 1); }
		else if (!strncmp(line, "choices", 7)) {
			char *s = line + 7, *e;
			for (;;) { uint64_t v = strtoull(s, &e, 10); if (e == s) break; ch.push_back(v); s = e; }
		} else if (!strncmp(line, "---", 3)) break;
	}
	fclose(f);
	for (auto &p : props()) {
		if (prop != p.name) continue;
		Outcome o = runchoices(p, ch, p.cpulimit, false);
		printf("%s: %s\n%s\n--- case\n%s\n", p.name, kindname[o.kind], o.msg.c_str(), o.desc.c_str());
		if (o.kind > Fail) printf("--- stderr\n%s\n", o.err.c_str());
		if (isbad(o.kind)) printf("VIOLATION property=%s replay=%s\n", a.property.c_str(), a.replay.c_str());
		return isbad(o.kind) ? 1 : 0;
	}
	fprintf(stderr, "no property %s in this binary\n", prop.c_str());
	return 2;
}

static int pbtmain(int argc, char *argv[]) {
	Args a;
	a.binary = argv[0];
	std::string known;
	for (int i = 1; i < argc; i++) {
		std::string s = argv[i];
		auto val = [&] { if (i + 1 >= argc) exit(2); return std::string(argv[++i]); };
		if (s == "--property") a.property = val();
		else if (s == "--tier") a.tier = val();
		else if (s == "--seed") a.seed = strtoull(val().c_str(), NULL, 10);
		else if (s == "--out") a.out = val();
		else if (s == "--replaydir") a.replaydir = val();
		else if (s == "--replay") a.replay = val();
		else if (s == "--only") a.only = val();
		else if (s == "--cap") a.cap = atof(val().c_str());
		else if (s == "--scale") a.scale = atof(val().c_str());
		else if (s == "--workers") a.workers = atoi(val().c_str());
		else if (s == "--name") a.binary = val();
		else if (s == "--known") known = val();
		else { fprintf(stderr, "unknown argument %s\n", s.c_str()); return 2; }
	}
	if (a.workers > MaxWorkers - 1) a.workers = MaxWorkers - 1;
	// The known findings: lines "KNOWN property=<id> <finding id> ..."
	if (!known.empty()) {
		FILE *f = fopen(known.c_str(), "r");
		char *line = NULL; size_t cap = 0;
		char prop[64], id[64];
		while (f && getline(&line, &cap, f) > 0)
			if (sscanf(line, "KNOWN property=%63s %63s", prop, id) == 2 && a.property == prop)
				knownids.insert(id);
		if (f) fclose(f);
	}
	void *m = mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (m == MAP_FAILED) { perror("mmap"); return 2; }
	sh = (Shared*) m;
	char tmpl[] = "/tmp/pbtXXXXXX";
	if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; }
	scratchroot = tmpl;
	signal(SIGPIPE, SIG_IGN);

	int rc = 0;
	if (!a.replay.empty()) {
		rc = replayfile(a);
	} else {
		std::string json = "[";
		bool first = true;
		for (auto &p : props()) {
			if (!a.only.empty() && ("," + a.only + ",").find(std::string(",") + p.name + ",") == std::string::npos) continue;
			if (!first) json += ",\n";
			first = false;
			if (!runprop(a, p, json)) rc = 10;
		}
		json += "]\n";
		if (first) { fprintf(stderr, "no such properties: %s\n", a.only.c_str()); rc = 2; }
		if (!a.out.empty()) {
			FILE *f = fopen(a.out.c_str(), "w");
			if (!f) { perror(a.out.c_str()); rc = 2; } else { fputs(json.c_str(), f); fclose(f); }
		}
	}
	if (chdir("/") == 0) rmtree(scratchroot, true);
	return rc;
}

}

int main(int argc, char *argv[]) { return pbt::pbtmain(argc, argv); }

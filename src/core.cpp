// Runner, supervisor and shrinker.
#include "core.hpp"
#include <dlfcn.h>
#include <signal.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/personality.h>
#include <time.h>
#include <unistd.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unordered_set>

struct Shared {
	uint64_t idx, evaluations, nontrivial, done;
	char msg[2048];
	char desc[8192];
	char config[32];
	TapeRec rec;
};
static Shared* S;
static std::vector<const VfApi*> APIS;
static const int CPU_LIMIT_S = 30;

static uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0x9E3779B97F4A7C15ULL + b); r.next(); return r.next(); }
static uint64_t hstr(const std::string& s) { uint64_t h = 1469598103934665603ULL; for (char ch : s) h = (h ^ (unsigned char) ch) * 1099511628211ULL; return h; }
static double now() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + 1e-9 * ts.tv_nsec; }
const Prop* find_prop(const std::string& id) { for (size_t i = 0; i < NUM_PROPS; ++i) if (id == PROPS[i].id) return &PROPS[i]; return nullptr; }
static const VfApi* find_api(const std::string& n) { for (auto a : APIS) if (n == a->name) return a; return nullptr; }

static void on_alarm(int) { snprintf(S->msg, sizeof S->msg, "no result after %d s of CPU time (hang)", CPU_LIMIT_S); _exit(78); }
static void arm(int s) { struct itimerval v; memset(&v, 0, sizeof v); v.it_value.tv_sec = s; setitimer(ITIMER_PROF, &v, nullptr); }

// which configuration a case runs in
static const VfApi* api_for(uint64_t idx)
{
	// the first configuration gets every second case, the others share the rest
	if (APIS.size() == 1 || idx % 2 == 0) return APIS[0];
	return APIS[1 + (idx / 2) % (APIS.size() - 1)];
}

static void run_case(const Prop* p, Ctx& c)
{
	S->rec.len = 0; S->msg[0] = 0; S->desc[0] = 0;
	c.t.rec = &S->rec; c.all = APIS; c.live = S->desc; c.live_cap = sizeof S->desc;
	snprintf(S->config, sizeof S->config, "%s", c.api->name);
	arm(CPU_LIMIT_S);
	try { p->fn(c); }
	catch (Discard&) { c.nontrivial = false; c.lab("discarded"); }
	catch (Fail& f) {
		snprintf(S->msg, sizeof S->msg, "%s", f.msg.c_str());
		throw;
	}
	arm(0);
}

// fork + replay one tape. 0 pass, 10 oracle failure, other: crash/hang
static int try_tape(const Prop* p, const VfApi* api, const std::vector<uint64_t>& tape, int tier, bool want, const char* errfile)
{
	fflush(nullptr);
	pid_t pid = fork();
	if (pid == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		int fd = open(errfile ? errfile : "/dev/null", O_WRONLY | O_CREAT | O_TRUNC, 0644);
		dup2(fd, 2); dup2(fd, 1);
		signal(SIGPROF, on_alarm);
		Ctx c; c.t.replay = true; c.t.in = tape; c.api = api; c.tier = tier; c.want_desc = want;
		try { run_case(p, c); } catch (Fail&) { _exit(10); } catch (...) { _exit(11); }
		_exit(0);
	}
	int st = 0;
	waitpid(pid, &st, 0);
	if (WIFEXITED(st)) return WEXITSTATUS(st);
	return 128 + WTERMSIG(st);
}

static std::vector<uint64_t> rec_tape() { return std::vector<uint64_t>(S->rec.v, S->rec.v + S->rec.len); }

static std::vector<uint64_t> shrink(const Prop* p, const VfApi* api, std::vector<uint64_t> cur, int tier, double budget, long& attempts)
{
	double end = now() + budget;
	auto bad = [&](const std::vector<uint64_t>& t) -> bool {
		if (now() > end) return false;
		++attempts;
		int r = try_tape(p, api, t, tier, false, nullptr);
		if (r == 0) return false;
		return true;
	};
	auto strip = [](std::vector<uint64_t>& t) { while (!t.empty() && t.back() == 0) t.pop_back(); };
	auto accept = [&](std::vector<uint64_t> t) {
		// normalise to the draws actually made
		std::vector<uint64_t> u = rec_tape();
		if (u.size() < t.size()) t = u;
		strip(t);
		cur = t;
	};
	strip(cur);
	bool progress = true;
	while (progress && now() < end) {
		progress = false;
		for (size_t len = cur.size() / 2; len >= 1; len /= 2) { // truncate
			while (cur.size() > len) {
				std::vector<uint64_t> t(cur.begin(), cur.end() - (long) len);
				if (bad(t)) { accept(t); progress = true; } else break;
			}
		}
		for (size_t ch : {256, 64, 16, 8, 5, 4, 3, 2, 1}) { // delete chunks
			if (ch > cur.size()) continue;
			for (size_t i = cur.size() - ch + 1; i-- > 0 && now() < end; ) {
				if (i + ch > cur.size()) continue;
				std::vector<uint64_t> t(cur.begin(), cur.begin() + (long) i);
				t.insert(t.end(), cur.begin() + (long) (i + ch), cur.end());
				if (bad(t)) { accept(t); progress = true; }
				if (ch > 8) i -= std::min<size_t>(i, ch / 2);
			}
		}
		for (size_t ch : {64, 16, 4, 1}) { // zero chunks
			for (size_t i = 0; i < cur.size() && now() < end; i += ch) {
				std::vector<uint64_t> t = cur; bool any = false;
				for (size_t j = i; j < i + ch && j < t.size(); ++j) { any |= t[j] != 0; t[j] = 0; }
				if (any && bad(t)) { accept(t); progress = true; }
			}
		}
		for (size_t i = 0; i < cur.size() && now() < end; ++i) { // smaller values
			uint64_t lo = 0, hi = cur[i];
			if (hi == 0) continue;
			for (uint64_t cand : {hi / 2, hi - 1}) {
				if (i >= cur.size() || cand >= cur[i]) continue;
				std::vector<uint64_t> t = cur; t[i] = cand;
				if (bad(t)) { accept(t); progress = true; }
			}
			(void) lo;
			// bisection
			if (i < cur.size() && cur[i] > 3) {
				uint64_t l = 0, h = cur[i];
				while (l + 1 < h && now() < end) {
					uint64_t m = l + (h - l) / 2; std::vector<uint64_t> t = cur;
					if (i >= t.size()) break;
					t[i] = m;
					if (bad(t)) { accept(t); h = m; progress = true; } else l = m;
				}
			}
		}
	}
	return cur;
}

static std::string jesc(const std::string& s)
{
	std::string o;
	for (unsigned char ch : s) {
		if (ch == '"' || ch == '\\') { o += '\\'; o += (char) ch; }
		else if (ch == '\n') o += "\\n";
		else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
		else o += (char) ch;
	}
	return o;
}
static std::string slurp(const std::string& f, size_t max) { std::ifstream i(f); std::stringstream ss; ss << i.rdbuf(); std::string s = ss.str(); if (s.size() > max) s.resize(max); return s; }

struct Args { std::map<std::string, std::string> m; std::string get(const std::string& k, const std::string& d = "") const { auto i = m.find(k); return i == m.end() ? d : i->second; } long num(const std::string& k, long d) const { auto i = m.find(k); return i == m.end() ? d : atol(i->second.c_str()); } };

static std::map<const VfApi*, std::string> INITIAL;
const std::string& initial_error(const VfApi* a) { return INITIAL[a]; }
static void load(const std::string& list)
{
	std::stringstream ss(list); std::string f;
	while (std::getline(ss, f, ',')) {
		void* h = dlopen(f.c_str(), RTLD_NOW | RTLD_LOCAL);
		if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); exit(3); }
		auto g = (const VfApi* (*)()) dlsym(h, "vf_get_api");
		if (!g) { fprintf(stderr, "dlsym: %s\n", dlerror()); exit(3); }
		APIS.push_back(g());
		std::vector<char> b(512, 'x'); int ok = APIS.back()->latest_error(b.size(), b.data()); b.back() = 0;
		INITIAL[APIS.back()] = ok ? std::string(b.data()) : std::string("<false>");
	}
}

struct RunCfg { const Prop* p; uint64_t seed; long start, step, count; int tier; double cap; std::string out; };

static uint64_t case_seed(const RunCfg& rc, uint64_t idx) { return mix(mix(rc.seed, hstr(rc.p->id)), idx); }

// worker loop; returns only when finished
static void worker(const RunCfg& rc, long from, long upto, bool record)
{
	signal(SIGPROF, on_alarm);
	std::map<std::string, long> labels;
	std::unordered_set<uint64_t> seen;
	std::vector<std::string> samples;
	double t0 = now();
	for (long i = from; i < upto; i += rc.step) {
		if (record && now() - t0 > rc.cap) { ++labels["stopped at time cap"]; break; }
		S->idx = (uint64_t) i;
		Ctx c; c.t.rng = Rng(case_seed(rc, (uint64_t) i)); c.api = api_for((uint64_t) i); c.tier = rc.tier; c.labels = &labels;
		c.want_desc = record && samples.size() < 4;
		try { run_case(rc.p, c); } catch (Fail&) { _exit(10); }
		++S->evaluations;
		if (c.nontrivial) { ++S->nontrivial; seen.insert(c.t.hash ^ hstr(c.api->name)); if (c.want_desc && (samples.size() < 3 || i > upto / 2) && !c.desc.empty()) samples.push_back(std::string(c.api->name) + ": " + c.desc); }
		else if (c.want_desc && false) {}
	}
	if (record) {
		std::ofstream o(rc.out + ".hash", std::ios::binary);
		for (uint64_t h : seen) o.write((const char*) &h, 8);
		std::ofstream j(rc.out + ".stat");
		j << "{\"labels\":{"; bool f = true;
		for (auto& kv : labels) { j << (f ? "" : ",") << "\"" << jesc(kv.first) << "\":" << kv.second; f = false; }
		j << "},\"samples\":["; f = true;
		for (auto& s : samples) { j << (f ? "" : ",") << "\"" << jesc(s.substr(0, 1500)) << "\""; f = false; }
		j << "]}";
	}
	S->done = 1;
	fflush(nullptr);
	_exit(0);
}

static int supervise(const RunCfg& rc, long from, long upto, bool record, const std::string& err)
{
	S->done = 0; S->msg[0] = 0;
	fflush(nullptr);
	pid_t pid = fork();
	if (pid == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		int fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
		dup2(fd, 2);
		worker(rc, from, upto, record);
	}
	int st = 0; waitpid(pid, &st, 0);
	if (WIFEXITED(st)) return (WEXITSTATUS(st) == 0 && !S->done) ? 12 : WEXITSTATUS(st);
	return 128 + WTERMSIG(st);
}

static std::string how(int r)
{
	if (r == 10) return "oracle";
	if (r == 78) return "hang";
	if (r == 99) return "sanitizer";
	if (r == 128 + SIGABRT) return "abort (assertion or sanitizer)";
	return "crash, status " + std::to_string(r);
}

static int cmd_run(const Args& a)
{
	RunCfg rc;
	rc.p = find_prop(a.get("prop"));
	if (!rc.p) { fprintf(stderr, "unknown property\n"); return 3; }
	rc.seed = (uint64_t) a.num("seed", 1); rc.start = a.num("start", 0); rc.step = a.num("step", 1); rc.count = a.num("cases", 100);
	rc.tier = (int) a.num("tier", 0); rc.cap = (double) a.num("cap", 400); rc.out = a.get("out", "out");
	std::string err = rc.out + ".err";
	double t0 = now();
	int r = supervise(rc, rc.start, rc.count, true, err);
	std::ofstream j(rc.out);
	if (r == 0) {
		j << "{\"ok\":true,\"evaluations\":" << S->evaluations << ",\"nontrivial\":" << S->nontrivial << ",\"wall\":" << (now() - t0) << "}\n";
		return 0;
	}
	if (r == 128 + SIGKILL) { j << "{\"ok\":false,\"confirmed\":false,\"evaluations\":" << S->evaluations << ",\"nontrivial\":" << S->nontrivial << ",\"wall\":" << (now() - t0) << ",\"kind\":\"worker was killed from outside\",\"message\":\"\",\"config\":\"\",\"replay\":\"\"}\n"; return 0; }
	// a failure: take the tape, confirm, shrink, confirm again
	long idx = (long) S->idx; uint64_t ev = S->evaluations, nt = S->nontrivial;
	std::vector<uint64_t> tape = rec_tape();
	std::string msg = S->msg; std::string log = slurp(err, 4000);
	const VfApi* api = api_for((uint64_t) idx);
	int hits = 0; long attempts = 0;
	for (int k = 0; k < 3; ++k) if (try_tape(rc.p, api, tape, rc.tier, false, nullptr) != 0) ++hits;
	bool single = hits == 3; bool confirmed = false; std::string kind = how(r), desc;
	if (single) {
		std::vector<uint64_t> sh = shrink(rc.p, api, tape, rc.tier, (double) a.num("shrink", 45), attempts);
		hits = 0;
		for (int k = 0; k < 3; ++k) { int q = try_tape(rc.p, api, sh, rc.tier, true, err.c_str()); if (q != 0) { ++hits; kind = how(q); } }
		if (hits == 3) { tape = sh; confirmed = true; msg = S->msg; desc = S->desc; log = slurp(err, 4000); }
		else confirmed = true; // the unshrunk tape failed three times
	} else {
		// depends on earlier cases of the same process: replay the whole run up to it
		hits = 0;
		for (int k = 0; k < 3; ++k) { S->evaluations = 0; int q = supervise(rc, rc.start, idx + 1, false, err); if (q != 0) { ++hits; kind = how(q); } }
		confirmed = hits == 3;
		// the harness has no randomness of its own: a failure that comes and goes is one of the library
		for (int k = 0; k < 5 && !confirmed && hits > 0; ++k) { S->evaluations = 0; if (supervise(rc, rc.start, idx + 1, false, err) != 0) ++hits; confirmed = hits >= 3; }
	}
	std::string rp;
	if (confirmed) {
		rp = a.get("replay");
		std::ofstream f(rp);
		f << "property " << rc.p->id << "\nconfig " << api->name << "\ntier " << rc.tier << "\n";
		if (single) { f << "mode tape\nlength " << tape.size() << "\ntape"; for (auto v : tape) f << " " << v; f << "\n"; }
		else f << "mode history\nseed " << rc.seed << "\nstart " << rc.start << "\nstep " << rc.step << "\nupto " << idx + 1 << "\n";
		f << "# kind: " << kind << "\n# message: " << msg << "\n# input: " << desc << "\n";
		std::stringstream ls(log); std::string line; int nl = 0;
		while (std::getline(ls, line) && nl++ < 40) f << "# log: " << line << "\n";
	}
	j << "{\"ok\":false,\"confirmed\":" << (confirmed ? "true" : "false") << ",\"evaluations\":" << ev << ",\"nontrivial\":" << nt << ",\"wall\":" << (now() - t0)
	  << ",\"case\":" << idx << ",\"config\":\"" << api->name << "\",\"kind\":\"" << jesc(kind) << "\",\"message\":\"" << jesc(msg) << "\",\"shrink_attempts\":" << attempts
	  << ",\"tape_len\":" << tape.size() << ",\"replay\":\"" << jesc(rp) << "\",\"desc\":\"" << jesc(desc.substr(0, 2000)) << "\",\"log\":\"" << jesc(log.substr(0, 1500)) << "\"}\n";
	return 0;
}

static int cmd_replay(const Args& a)
{
	std::ifstream f(a.get("file")); std::string line, prop, cfg, mode = "tape"; int tier = 0; std::vector<uint64_t> tape; long start = 0, step = 1, upto = 0; uint64_t seed = 1;
	while (std::getline(f, line)) {
		std::stringstream ss(line); std::string k; ss >> k;
		if (k == "property") ss >> prop; else if (k == "config") ss >> cfg; else if (k == "tier") ss >> tier; else if (k == "mode") ss >> mode;
		else if (k == "seed") ss >> seed; else if (k == "start") ss >> start; else if (k == "step") ss >> step; else if (k == "upto") ss >> upto;
		else if (k == "tape") { uint64_t v; while (ss >> v) tape.push_back(v); }
	}
	const Prop* p = find_prop(prop);
	if (!p) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 3; }
	int r; std::string err = a.get("err", "/tmp/vf_replay.err");
	if (mode == "history") { RunCfg rc; rc.p = p; rc.seed = seed; rc.start = start; rc.step = step; rc.count = upto; rc.tier = tier; rc.cap = 1e9; r = supervise(rc, start, upto, false, err); }
	else { const VfApi* api = find_api(cfg); if (!api) return 3; r = try_tape(p, api, tape, tier, true, err.c_str()); }
	if (r == 0) { printf("PASS\n"); return 0; }
	printf("FAIL %s\nmessage: %s\ninput: %s\n%s\n", how(r).c_str(), S->msg, S->desc, slurp(err, 4000).c_str());
	return 1;
}

// tape recorded by the fuzzer -> confirmed and shrunk replay file
static int cmd_tape(const Args& a)
{
	int fd = open(a.get("rec").c_str(), O_RDONLY); if (fd < 0) return 3;
	Shared* R = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ, MAP_PRIVATE, fd, 0);
	if (R == MAP_FAILED) return 3;
	std::vector<uint64_t> tape(R->rec.v, R->rec.v + R->rec.len);
	const Prop* p = find_prop(a.get("prop")); const VfApi* api = find_api(R->config); std::string err = a.get("replay") + ".err";
	if (!p || !api) return 3;
	int q = 0;
	for (int k = 0; k < 3; ++k) { q = try_tape(p, api, tape, 0, true, err.c_str()); if (q == 0) { printf("not reproduced\n"); return 0; } }
	long at = 0; std::vector<uint64_t> sh = shrink(p, api, tape, 0, (double) a.num("shrink", 60), at);
	bool good = true; for (int k = 0; k < 3; ++k) { int z = try_tape(p, api, sh, 0, true, err.c_str()); if (z == 0) good = false; else q = z; }
	if (!good) { sh = tape; q = try_tape(p, api, sh, 0, true, err.c_str()); }
	std::ofstream f(a.get("replay"));
	f << "property " << p->id << "\nconfig " << api->name << "\ntier 0\nmode tape\nlength " << sh.size() << "\ntape"; for (auto v : sh) f << " " << v;
	f << "\n# kind: " << how(q) << "\n# message: " << S->msg << "\n# input: " << S->desc << "\n";
	std::stringstream ls(slurp(err, 4000)); std::string line; int nl = 0; while (std::getline(ls, line) && nl++ < 40) f << "# log: " << line << "\n";
	printf("confirmed %s: %s\n", how(q).c_str(), S->msg);
	unlink(err.c_str());
	return 1;
}

#ifdef VF_FUZZ
// libFuzzer entry: bytes -> tape
static const Prop* FP;
extern "C" int LLVMFuzzerInitialize(int*, char***)
{
	int fd = open(getenv("VF_REC"), O_RDWR | O_CREAT | O_TRUNC, 0644);
	if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0) abort();
	S = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	load(getenv("VF_SO")); FP = find_prop(getenv("VF_PROP"));
	if (!FP) abort();
	signal(SIGPROF, on_alarm);
	return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n)
{
	if (n < 2) return 0;
	Ctx c; c.t.replay = true; c.api = APIS[d[0] % APIS.size()]; c.tier = 0;
	for (size_t i = 1; i < n; ++i) {
		// values below 224 are literal, the rest start a wider value
		uint64_t v = d[i];
		if (v >= 240 && i + 8 < n) { memcpy(&v, d + i + 1, 8); i += 8; }
		else if (v >= 224 && i + 2 < n) { v = (uint64_t) d[i + 1] | ((uint64_t) d[i + 2] << 8); i += 2; }
		c.t.in.push_back(v);
	}
	try { run_case(FP, c); }
	catch (Fail& f) { fprintf(stderr, "oracle: %s\n", f.msg.c_str()); abort(); }
	++S->evaluations; if (c.nontrivial) ++S->nontrivial;
	return 0;
}
#else
int main(int argc, char** argv)
{
	// same addresses in every run: failures that depend on them replay
	int pers = personality(0xffffffff);
	if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("VF_NO_REEXEC")) { setenv("VF_NO_REEXEC", "1", 1); if (personality((unsigned long) pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
	Args a; std::string cmd = argc > 1 ? argv[1] : "";
	for (int i = 2; i + 1 < argc; i += 2) a.m[argv[i] + 2] = argv[i + 1];
	if (cmd == "list") { for (size_t i = 0; i < NUM_PROPS; ++i) printf("%s\n", PROPS[i].id); return 0; }
	S = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	load(a.get("so"));
	if (cmd == "run") return cmd_run(a);
	if (cmd == "replay") return cmd_replay(a);
	if (cmd == "tape") return cmd_tape(a);
	return 3;
}
#endif

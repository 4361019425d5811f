// Driver for the native (replay) build of a harness: vc_native replay FILE | search SEED SECONDS OUTFILE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <signal.h>
#include <stdint.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <time.h>
#include <fcntl.h>
#include <map>
#include <string>
#include <vector>
#include <sys/time.h>
#include <sys/resource.h>
jmp_buf vc_skip;
const char *vc_charset = NULL;
extern "C" void VC_ENTRY(void);
struct Shared { volatile long trials, skipped; char msg[512]; char tape[1 << 20]; volatile int tape_len; };
static Shared *sh;
static bool replaying;
static std::map<std::string, std::string> tape;
static uint64_t rs;
static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1DULL >> 7; }
static void rec(const char *n, const char *v) {
	int room = (int)sizeof sh->tape - sh->tape_len - 8, l = snprintf(sh->tape + sh->tape_len, room, "%s=%s\n", n, v);
	if (l > 0 && l < room) sh->tape_len += l;
}
static const long long edge[] = {0, 1, -1, 2, -2, 7, 8, -7, -8, 9, 10, 15, 16, 31, 32, 63, 64, 127, 128, 129, -127, -128, -129, 254, 255, 256, 257, 511, 512, 0x7FFF, 0x8000,
	0x8001, -32767, -32768, -32769, 0xFFFF, 0x10000, 0x10001, 0x7FFFFF, 0x800000, 0xFFFFFF, 0x1000000, 0x7FFFFFFF, -0x7FFFFFFFLL - 1, 0x80000000LL, 0xFFFFFFFFLL, 0x100000000LL, 0x4000, 0x3FFF, 0x4001, 0xC7, 0xC0};
long long vc_in(const char *name, long long lo, long long hi) {
	long long v;
	if (replaying) {
		auto it = tape.find(name);
		v = it == tape.end() ? lo : strtoll(it->second.c_str(), 0, 0);
		if (v < lo || v > hi) longjmp(vc_skip, 1);
	} else {
		int k = rnd() % 8;
		if (hi - lo >= 0 && hi - lo < 64) v = lo + rnd() % (hi - lo + 1);
		else {
			do {
				k = rnd() % 8;
				if (k == 0) v = lo + rnd() % 20;
				else if (k == 1) v = hi - (long long)(rnd() % 20);
				else if (k <= 3) v = edge[rnd() % (sizeof edge / sizeof *edge)];
				else if (k == 4) v = (long long)(rnd() % 600) - 300;
				else if (k == 5) v = (long long)(rnd() & ((1ULL << (rnd() % 56)) - 1));
				else if (k == 6) v = -(long long)(rnd() & ((1ULL << (rnd() % 56)) - 1));
				else v = lo + (long long)(((rnd() << 30) ^ rnd()) % ((unsigned long long)(hi - lo) + 1 ? (unsigned long long)(hi - lo) + 1 : ~0ULL));
			} while (v < lo || v > hi);
		}
	}
	char b[32]; snprintf(b, sizeof b, "%lld", v); rec(name, b);
	return v;
}
char *vc_in_str(const char *name, long long lo, long long hi, long *len) {
	std::string s; std::string key = std::string("str") + name;
	if (replaying) {
		std::string h = tape.count(key) ? tape[key] : "";
		for (size_t i = 0; i + 1 < h.size(); i += 2) s += (char)strtol(h.substr(i, 2).c_str(), 0, 16);
		if ((long long)s.size() < lo || (long long)s.size() > hi) longjmp(vc_skip, 1);
	} else {
		long long n; int k = rnd() % 16;
		n = lo + (k < 8 ? rnd() % 9 : k < 13 ? rnd() % 40 : k < 15 ? rnd() % 300 : rnd() % 1200);
		if (n > hi) n = lo + rnd() % (hi - lo + 1);
		for (long long i = 0; i < n; i++) {
			char c;
			if (vc_charset && rnd() % 24) c = vc_charset[rnd() % strlen(vc_charset)];
			else c = (char)(1 + rnd() % 255);
			s += c;
		}
	}
	std::string h; char b[4];
	for (unsigned char c : s) { snprintf(b, 4, "%02x", c); h += b; }
	rec(key.c_str(), h.c_str());
	char *p = (char *)malloc(s.size() + 1);
	memcpy(p, s.data(), s.size()); p[s.size()] = 0;
	*len = s.size();
	return p;
}
void vc_fail(const char *msg, const char *file, int line) {
	snprintf(sh->msg, sizeof sh->msg, "%s (%s:%d)", msg, file, line);
	_exit(42);
}
static int one() { if (setjmp(vc_skip)) { sh->skipped++; return 1; } VC_ENTRY(); return 0; }
int main(int argc, char **argv) {
	sh = (Shared *)mmap(0, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	signal(SIGPIPE, SIG_IGN);
	if (argc >= 3 && !strcmp(argv[1], "replay")) {
		replaying = true;
		FILE *f = fopen(argv[2], "r"); static char line[1 << 20];
		while (f && fgets(line, sizeof line, f)) {
			char *e = strchr(line, '='); if (!e || line[0] == '#') continue;
			*e = 0; e[1 + strcspn(e + 1, "\n")] = 0; tape[line] = e + 1;
		}
		pid_t p = fork();
		if (!p) { alarm(20); int r = one(); fflush(stdout); _exit(r ? 77 : 0); }
		int st; waitpid(p, &st, 0);
		if (WIFEXITED(st) && (WEXITSTATUS(st) == 0)) { printf("REPLAY pass\n"); return 0; }
		if (WIFEXITED(st) && (WEXITSTATUS(st) == 77)) { printf("REPLAY skipped: the input violates a precondition\n"); return 0; }
		printf("REPLAY fail: %s (status %d%s)\n", sh->msg[0] ? sh->msg : "crash or sanitizer report", WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st), WIFSIGNALED(st) ? " signal" : "");
		return 1;
	}
	uint64_t seed = argc > 2 ? strtoull(argv[2], 0, 0) : 1; double secs = argc > 3 ? atof(argv[3]) : 5;
	const char *out = argc > 4 ? argv[4] : "/dev/stdout";
	struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
	uint64_t round = 0;
	for (;;) {
		round++;
		sh->msg[0] = 0;
		pid_t p = fork();
		if (!p) {
			if (!getenv("VC_VERBOSE")) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); }
			for (int i = 0; i < 4000; i++) {
				rs = (seed * 1000003ULL + round) * 6364136223846793005ULL + i * 1442695040888963407ULL + 88172645463325252ULL; rnd(); rnd(); rnd();
				sh->tape_len = 0; sh->tape[0] = 0;
				alarm(10);
				one(); sh->trials++;
				if (i % 50 == 0) {
					clock_gettime(CLOCK_MONOTONIC, &t1);
					if ((t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9 > secs) break;
				}
			}
			_exit(0);
		}
		int st; waitpid(p, &st, 0);
		if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
			FILE *f = fopen(out, "w");
			fprintf(f, "# %s (status %d%s)\n%.*s", sh->msg[0] ? sh->msg : "crash or sanitizer report", WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st), WIFSIGNALED(st) ? " signal" : "", sh->tape_len, sh->tape);
			fclose(f);
			printf("SEARCH fail trials=%ld skipped=%ld %s\n", sh->trials, sh->skipped, sh->msg[0] ? sh->msg : "crash or sanitizer report");
			return 1;
		}
		clock_gettime(CLOCK_MONOTONIC, &t1);
		if ((t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9 > secs) break;
	}
	printf("SEARCH pass trials=%ld skipped=%ld\n", sh->trials, sh->skipped);
	return 0;
}

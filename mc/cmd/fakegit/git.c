// A git that fails when told to. The output of every command comes from the
// real one (FG_GIT), which is run once per command line and directory, and is
// kept in FG_DIR.
//
// FG_FAULT=HASH:OCCURRENCE:MODE:N makes the OCCURRENCEth (-1: every) run of
// the command HASH write the first N bytes and then
//   1, 128, ...  exit with this status
//   kill         end by a signal
//   split        write the rest after the first part was read, and succeed
//   warn         write a warning to standard error, the rest, and succeed
//
// With TG_DIR set it only counts: before the real git is started for the Nth
// time, the shell script TG_DIR/turn.N is run, if there is one.
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

static void die(const char *m) { perror(m); _exit(99); }

static void out(const char *b, size_t n) {
	while (n > 0) {
		ssize_t k = write(1, b, n);
		if (k < 0) {
			if (errno == EINTR) continue;
			_exit(141);
		}
		b += k;
		n -= k;
	}
}

int main(int argc, char **argv) {
	const char *dir = getenv("FG_DIR"), *git = getenv("FG_GIT"), *fault = getenv("FG_FAULT");
	const char *turn = getenv("TG_DIR");
	if (turn && *turn && git) {
		char p[4200], q[4200];
		for (int i = 1;; i++) {
			snprintf(p, sizeof p, "%s/%d", turn, i);
			int fd = open(p, O_WRONLY | O_CREAT | O_EXCL, 0666);
			if (fd < 0 && errno == EEXIST) continue;
			if (fd < 0) die(p);
			close(fd);
			snprintf(p, sizeof p, "%s/turn.%d", turn, i);
			break;
		}
		if (access(p, F_OK) == 0) {
			snprintf(q, sizeof q, "sh '%s' >/dev/null 2>&1", p);
			if (system(q)) _exit(93);
		}
		argv[0] = "git";
		execv(git, argv);
		die(git);
	}
	if (!dir || !git) _exit(98);
	uint64_t h = 14695981039346656037ull;
	char cwd[4096];
	if (!getcwd(cwd, sizeof cwd)) die("getcwd");
	argv[0] = cwd;
	for (int i = 0; i < argc; i++)
		for (char *p = argv[i];; p++) {
			h = (h ^ (unsigned char)*p) * 1099511628211ull;
			if (!*p) break;
		}
	char hash[32], path[4200], tmp[4200];
	snprintf(hash, sizeof hash, "%016llx", (unsigned long long)h);
	snprintf(path, sizeof path, "%s/%s", dir, hash);
	int fd = open(path, O_RDONLY);
	if (fd < 0) {
		// first byte: exit status
		snprintf(tmp, sizeof tmp, "%s.%d", path, getpid());
		fd = open(tmp, O_RDWR | O_CREAT | O_TRUNC, 0666);
		if (fd < 0) die(tmp);
		out("", 0);
		if (write(fd, "", 1) != 1) die("write");
		pid_t p = fork();
		if (p == 0) {
			dup2(fd, 1);
			argv[0] = "git";
			execv(git, argv);
			_exit(97);
		}
		int st;
		if (waitpid(p, &st, 0) != p) die("wait");
		unsigned char c = WIFEXITED(st) ? WEXITSTATUS(st) : 96;
		if (pwrite(fd, &c, 1, 0) != 1) die("pwrite");
		char a[4200];
		snprintf(a, sizeof a, "%s/%s.args", dir, hash);
		FILE *f = fopen(a, "w");
		for (int i = 1; i < argc; i++) fprintf(f, "%s%c", argv[i], i + 1 < argc ? ' ' : '\n');
		fclose(f);
		if (rename(tmp, path)) die("rename");
	}
	struct stat s;
	if (fstat(fd, &s)) die("stat");
	size_t n = s.st_size - 1;
	char *b = malloc(n + 1);
	for (size_t k = 0; k < n + 1;) {
		ssize_t m = pread(fd, b + k, n + 1 - k, k);
		if (m <= 0) die("read");
		k += m;
	}
	unsigned char code = b[0];
	b++;
	if (fault && !strncmp(fault, "log", 3)) {
		snprintf(tmp, sizeof tmp, "%s/log", dir);
		int l = open(tmp, O_WRONLY | O_CREAT | O_APPEND, 0666);
		strcat(hash, "\n");
		if (write(l, hash, strlen(hash)) < 0) die("log");
		close(l);
	} else if (fault && !strncmp(fault, hash, 16) && fault[16] == ':') {
		int occ = 0;
		char mode[32];
		size_t k = 0;
		if (sscanf(fault + 17, "%d:%31[^:]:%zu", &occ, mode, &k) != 3) _exit(95);
		int hit = occ < 0;
		if (!hit) {
			const char *run = getenv("FG_RUN");
			for (int i = 0;; i++) {
				snprintf(tmp, sizeof tmp, "%s/%d", run, i);
				if (mkdir(tmp, 0777) == 0) { hit = i == occ; break; }
				if (errno != EEXIST) die(tmp);
			}
		}
		if (hit) {
			if (k > n) k = n;
			out(b, k);
			if (!strcmp(mode, "kill")) {
				raise(SIGKILL);
			} else if (!strcmp(mode, "split")) {
				int left = 1;
				for (int i = 0; left > 0 && i < 40000; i++) {
					if (ioctl(1, FIONREAD, &left)) break;
					if (left) usleep(50);
				}
				out(b + k, n - k);
				_exit(code);
			} else if (!strcmp(mode, "warn")) {
				if (write(2, "warning: something\n", 19) < 0) _exit(94);
				out(b + k, n - k);
				_exit(code);
			}
			_exit(atoi(mode));
		}
	}
	out(b, n);
	_exit(code);
}

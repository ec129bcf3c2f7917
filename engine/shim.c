#define _GNU_SOURCE
#include "keyd.h"
#include "shim.h"
#include <sys/mman.h>

struct sh_cb sh_cb;
static int in_keyd;
int sh_in_keyd(void) { return in_keyd; }

struct sh_eng { struct config config; struct keyboard *kbd; };

static void on_key(uint8_t code, uint8_t state) { if (sh_cb.key) sh_cb.key(code, state); }
static void on_layer(const struct keyboard *kbd, const struct layer *layer, uint8_t active)
{
	(void)kbd;
	if (sh_cb.layer) sh_cb.layer(layer->name, active);
}

#define ENTER() int was_in = in_keyd; in_keyd = 1
#define LEAVE() in_keyd = was_in

sh_eng *sh_load(const char *path)
{
	ENTER();
	sh_eng *e = calloc(1, sizeof *e);
	int r = config_parse(&e->config, path);
	LEAVE();
	if (r) { free(e); return NULL; }
	return e;
}
void sh_start(sh_eng *e)
{
	struct output o = { .send_key = on_key, .on_layer_change = on_layer };
	ENTER();
	e->kbd = new_keyboard(&e->config, &o);
	LEAVE();
}
void sh_restart(sh_eng *e) { free(e->kbd); e->kbd = NULL; sh_start(e); }
void sh_free(sh_eng *e) { if (e) { free(e->kbd); free(e); } }

long sh_events(sh_eng *e, const struct sh_ev *evs, size_t n)
{
	struct key_event *k = malloc(sizeof(*k) * (n ? n : 1));   // exact size: overreads are seen
	for (size_t i = 0; i < n; i++) {
		memset(&k[i], 0, sizeof k[i]);
		k[i].code = evs[i].code;
		k[i].pressed = evs[i].pressed;
		k[i].timestamp = evs[i].t;
	}
	ENTER();
	long r = kbd_process_events(e->kbd, k, n);
	LEAVE();
	free(k);
	return r;
}
int sh_bind(sh_eng *e, const char *exp)
{
	ENTER();
	int r = kbd_eval(e->kbd, exp);
	LEAVE();
	return r;
}
const char *sh_err(void) { return errstr; }
int sh_match(sh_eng *e, const char *id, unsigned flags) { return config_check_match(&e->config, id, flags); }
int sh_key(const char *s, int *code, int *mods)
{
	uint8_t c = 0, m = 0;
	ENTER();
	int r = parse_key_sequence(s, &c, &m);
	LEAVE();
	*code = c; *mods = m;
	return r;
}
int sh_macro(const char *text, void (*out)(uint8_t, uint8_t), size_t timeout)
{
	static struct macro m;
	char *s = strdup(text);
	ENTER();
	memset(&m, 0, sizeof m);
	int r = macro_parse(s, &m);
	if (!r) macro_execute(out, &m, timeout);
	LEAVE();
	free(s);
	return r;
}

static int log_fd = -1, saved_out = -1;
void sh_log_begin(void)
{
	fflush(stdout);
	if (log_fd < 0) log_fd = memfd_create("log", 0);
	if (ftruncate(log_fd, 0)) {}
	lseek(log_fd, 0, SEEK_SET);
	saved_out = dup(1);
	dup2(log_fd, 1);
	suppress_colours = 1;
}
const char *sh_log_end(void)
{
	static char buf[1 << 16];
	fflush(stdout);
	dup2(saved_out, 1);
	close(saved_out);
	ssize_t n = pread(log_fd, buf, sizeof(buf) - 1, 0);
	buf[n < 0 ? 0 : n] = 0;
	return buf;
}

// ---- stand-ins: nothing keyd does here may reach the real system
#include <stdarg.h>
int ks_on(void);                 // the whole daemon runs under the simulated kernel (daemon/ksim.cpp)
void ks_usleep(unsigned us);
int sh_real_exec;                // C33: keyd's children are real (2: and sh_cb.command is told)
int sh_spawned;                  // in the child: its descriptors are not arranged as asked
int (*sh_exec)(const char *path, char *const argv[]);    // ... and this stands in for exec (in the child)


int __real_usleep(useconds_t us);
int __wrap_usleep(useconds_t us)
{
	if (ks_on()) { ks_usleep(us); return 0; }
	if (!in_keyd) return __real_usleep(us);
	if (sh_cb.nap) sh_cb.nap(us);
	return 0;
}
int __real_nanosleep(const struct timespec *a, struct timespec *b);
int __wrap_nanosleep(const struct timespec *a, struct timespec *b)
{
	unsigned us = a->tv_sec * 1000000 + a->tv_nsec / 1000;
	if (ks_on()) { ks_usleep(us); return 0; }
	if (!in_keyd) return __real_nanosleep(a, b);
	if (sh_cb.nap) sh_cb.nap(us);
	return 0;
}
pid_t __real_fork(void);
pid_t __wrap_fork(void)
{
	if (sh_real_exec == 2 && sh_cb.command) sh_cb.command(NULL);
	if (sh_real_exec || !(in_keyd || ks_on())) return __real_fork();
	if (sh_cb.command) sh_cb.command(NULL);
	return 12345;      // keyd's parent path only: the command itself is not run
}
int sh_real_fork(void) { return __real_fork(); }
pid_t __real_wait(int *st);
pid_t __wrap_wait(int *st) { if (sh_real_exec || !(in_keyd || ks_on())) return __real_wait(st); if (st) *st = 0; return 12345; }
pid_t __real_waitpid(pid_t p, int *st, int o);
pid_t __wrap_waitpid(pid_t p, int *st, int o) { if (sh_real_exec || !(in_keyd || ks_on())) return __real_waitpid(p, st, o); if (st) *st = 0; return p; }
int __real_execv(const char *p, char *const a[]);
int __real_execve(const char *p, char *const a[], char *const e[]);
int __real_execvp(const char *p, char *const a[]);
int __wrap_execv(const char *p, char *const a[]) { if (!sh_real_exec) abort(); return sh_exec(p, a); }
int __wrap_execvp(const char *p, char *const a[]) { if (!sh_real_exec) abort(); return sh_exec(p, a); }
int __wrap_execve(const char *p, char *const a[], char *const e[]) { if (!sh_real_exec) abort(); return sh_exec(p, a); }
#define COLLECT() char *v[64]; int n = 0; va_list ap; va_start(ap, a); v[n++] = (char *)a; while (n < 63 && (v[n] = va_arg(ap, char *))) n++; v[n] = NULL; va_end(ap)
int __wrap_execl(const char *p, const char *a, ...) { if (!sh_real_exec) abort(); COLLECT(); return sh_exec(p, v); }
int __wrap_execlp(const char *p, const char *a, ...) { if (!sh_real_exec) abort(); COLLECT(); return sh_exec(p, v); }
int __real_system(const char *c);
int __wrap_system(const char *c)
{
	if (sh_real_exec == 2 && sh_cb.command) sh_cb.command(NULL);
	if (sh_real_exec) {
		char *v[] = {"/bin/sh", "-c", (char *)c, NULL};
		int st = 0;
		pid_t p = __real_fork();
		if (!p) { sh_exec("/bin/sh", v); _exit(127); }
		__real_waitpid(p, &st, 0);
		return st;
	}
	if (!(in_keyd || ks_on())) return __real_system(c);
	if (sh_cb.command) sh_cb.command(c);
	return 0;
}
pid_t __wrap_vfork(void) { return __wrap_fork(); }
int __wrap_posix_spawn(pid_t *p, const char *path, const void *a, const void *b, char *const argv[], char *const envp[])
{
	if (sh_real_exec == 2 && sh_cb.command) sh_cb.command(NULL);
	if (sh_real_exec) {
		pid_t c = __real_fork();
		if (!c) { sh_spawned = 1; sh_exec(path, argv); _exit(127); }
		if (p) *p = c;
		return c < 0;
	}
	if (p) *p = 12345;
	if (sh_cb.command) sh_cb.command(NULL);
	return 0;
}

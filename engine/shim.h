// The only place (with shim.c) that knows keyd's own interfaces.
#pragma once
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
struct sh_ev { int code, pressed; long t; };
struct sh_cb {
	void (*key)(int code, int state);
	void (*layer)(const char *name, int state);
	void (*nap)(unsigned us);
	void (*command)(const char *cmd);
};
extern struct sh_cb sh_cb;
typedef struct sh_eng sh_eng;

sh_eng *sh_load(const char *path);                 // NULL if refused
void sh_start(sh_eng *);                           // create the keyboard
void sh_restart(sh_eng *);                         // a fresh keyboard on the same configuration
void sh_free(sh_eng *);
long sh_events(sh_eng *, const struct sh_ev *evs, size_t n);
int sh_bind(sh_eng *, const char *exp);            // 0 ok
const char *sh_err(void);
int sh_match(sh_eng *, const char *id, unsigned flags);
int sh_key(const char *s, int *code, int *mods);   // parse a key sequence; 0 ok
void sh_log_begin(void);                           // capture what keyd logs
const char *sh_log_end(void);
int sh_macro(const char *text, void (*out)(uint8_t, uint8_t), size_t timeout);   // parse and execute
int sh_in_keyd(void);
int sh_real_fork(void);
extern int sh_real_exec, sh_spawned;
extern int (*sh_exec)(const char *path, char *const argv[]);

#ifdef __cplusplus
}
#endif

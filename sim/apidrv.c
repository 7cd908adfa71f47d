/* Driver for libtcc: runs the history given on its command line.
 * argv[1] "threads" or "inline"; every further argument is one operation
 *   TID SID OP [ARG]
 * Results are kept per operation and printed when all is done, so that what an
 * operation yields is a function of that operation alone. No heap is used here. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
#include "libtcc.h"

long sim_heap_live_blocks(void); long sim_heap_live_bytes(void); long sim_fd_count(void); long sim_dl_live(void);
void sim_note(const char *);

#define MAXOP 400
#define MAXST 64
struct op { int tid, sid; const char *name, *arg; long ret; int done, len; char text[3000]; };
static struct op ops[MAXOP];
static int nops, threads;
static TCCState *st[MAXST];
static int ready[MAXST];          /* relocated: its functions may be called */
static struct op *curop[MAXST];   /* operation a state is in, for its messages */
static __thread struct op *me;

static void put(struct op *o, const char *s) {
	int n = strlen(s);
	if (n > (int)sizeof o->text - 2 - o->len) n = sizeof o->text - 2 - o->len;
	memcpy(o->text + o->len, s, n); o->len += n; o->text[o->len] = 0;
}
static void on_error(void *opaque, const char *msg) {
	struct op *o = curop[(long)opaque];
	if (!o) o = &ops[0];
	put(o, msg); put(o, "|");
}
/* given to programs with "add": what they emit belongs to the running operation */
static int host_emit(int v) { char b[32]; snprintf(b, sizeof b, "<%d>", v); if (me) put(me, b); return v + 1; }
static void on_sym(void *ctx, const char *name, const void *val) { (void)val; put(ctx, name); put(ctx, " "); }
static int on_bt(void *ud, void *pc, const char *file, int line, const char *func, const char *msg) {
	char b[200]; struct op *o = curop[(long)ud]; (void)pc;
	snprintf(b, sizeof b, "{%s:%d %s %s}", file ? file : "", line, func ? func : "", msg ? msg : "");
	if (o) put(o, b);
	return 1;
}

static void run_op(struct op *o) {
	TCCState *s = st[o->sid];
	const char *n = o->name, *a = o->arg;
	char b[600]; char *sp;
	me = o; curop[o->sid] = o;
	snprintf(b, sizeof b, "%s", a);
	if (!strcmp(n, "new")) { ready[o->sid] = 0; s = st[o->sid] = tcc_new(); o->ret = s != NULL; tcc_set_error_func(s, (void *)(long)o->sid, on_error); }
	else if (!strcmp(n, "mem")) { snprintf(b, sizeof b, "%ld %ld %ld %ld", sim_heap_live_blocks(), sim_heap_live_bytes(), sim_fd_count(), sim_dl_live()); put(o, b); }
	else if (!s) put(o, "no state");
	else if (!strcmp(n, "del")) { tcc_delete(s); st[o->sid] = NULL; }
	else if (!strcmp(n, "libdir")) tcc_set_lib_path(s, a);
	else if (!strcmp(n, "opt")) o->ret = tcc_set_options(s, a);
	else if (!strcmp(n, "type")) o->ret = tcc_set_output_type(s, atoi(a));
	else if (!strcmp(n, "inc")) o->ret = tcc_add_include_path(s, a);
	else if (!strcmp(n, "sysinc")) o->ret = tcc_add_sysinclude_path(s, a);
	else if (!strcmp(n, "libpath")) o->ret = tcc_add_library_path(s, a);
	else if (!strcmp(n, "lib")) o->ret = tcc_add_library(s, a);
	else if (!strcmp(n, "def")) { sp = strchr(b, ' '); if (sp) *sp++ = 0; tcc_define_symbol(s, b, sp); }
	else if (!strcmp(n, "undef")) tcc_undefine_symbol(s, a);
	else if (!strcmp(n, "str")) o->ret = tcc_compile_string(s, a);
	else if (!strcmp(n, "file")) o->ret = tcc_add_file(s, a);
	else if (!strcmp(n, "add")) o->ret = tcc_add_symbol(s, a, (void *)host_emit);
	else if (!strcmp(n, "reloc")) ready[o->sid] = (o->ret = tcc_relocate(s)) == 0;
	else if (!strcmp(n, "out")) o->ret = tcc_output_file(s, a);
	else if (!strcmp(n, "list")) tcc_list_symbols(s, o, on_sym);
	else if (!strcmp(n, "bt")) tcc_set_backtrace_func(s, (void *)(long)o->sid, on_bt);
	else if (!strcmp(n, "get")) o->ret = tcc_get_symbol(s, a) != NULL;
	else if (!ready[o->sid] && (!strcmp(n, "geti") || !strcmp(n, "call"))) put(o, "not ready");
	else if (!strcmp(n, "geti")) { int *p = tcc_get_symbol(s, a); if (p) o->ret = *p; else put(o, "absent"); }
	else if (!strcmp(n, "call")) {
		sp = strchr(b, ' '); if (sp) *sp++ = 0;
		int (*f)(int) = (int (*)(int))tcc_get_symbol(s, b);
		if (f) o->ret = f(sp ? atoi(sp) : 0); else put(o, "absent");
	} else if (!strcmp(n, "run")) {
		char *av[8]; int ac = 0; av[ac++] = "prog";
		for (char *t = b; *t && ac < 7; ) { av[ac++] = t; sp = strchr(t, ' '); if (!sp) break; *sp = 0; t = sp + 1; }
		av[ac] = NULL; o->ret = tcc_run(s, ac, av);
	} else put(o, "bad op");
	o->done = 1; me = NULL;
}
static void *thread(void *v) {
	for (int i = 0; i < nops; i++) if (ops[i].tid == (long)v) run_op(&ops[i]);
	return NULL;
}
int main(int argc, char **argv) {
	int maxt = 0;
	threads = !strcmp(argv[1], "threads");
	for (int i = 2; i < argc && nops < MAXOP; i++) {
		struct op *o = &ops[nops++];
		char *p = argv[i];
		o->tid = strtol(p, &p, 10); o->sid = strtol(p, &p, 10) % MAXST;
		while (*p == ' ') p++;
		o->name = p;
		if ((p = strchr(p, ' '))) *p++ = 0; else p = "";
		o->arg = p;
		if (o->tid > maxt) maxt = o->tid;
	}
	if (threads) {
		pthread_t t[32];
		for (long k = 0; k <= maxt; k++) if (pthread_create(&t[k], NULL, thread, (void *)k)) return 90;
		for (long k = 0; k <= maxt; k++) pthread_join(t[k], NULL);
	} else
		for (int i = 0; i < nops; i++) run_op(&ops[i]);
	printf("\n");
	for (int i = 0; i < nops; i++) {
		struct op *o = &ops[i];
		for (char *p = o->text; *p; p++) if (*p == '\n') *p = '\\';
		printf("%d %ld %s\n", o->done, o->ret, o->text);
	}
	return 0;
}

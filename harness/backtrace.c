// Call stacks in error messages: whatever the stack walking and debug information services answer, the message itself
// is kept, the walk ends, known frames are shown as function(file:line), and every session opened is closed.
#include "vf.h"
#include <string.h>
#include <stdint.h>
#include <stdio.h>
#include <easyMock.h>
#include <easyMock_framework.h>
#ifdef DEEP   // deep stacks about which everything is known
#define NFR 300
#else
#define NFR 2
#endif
static unsigned frames, at, opened, closed;
#ifndef DEEP
static int complete[NFR + 1];       // everything was known about this frame
#endif
#ifdef DEEP
static char file[1100];
#define vf_choice(n, name) 0
#else
static char file[8];
#endif
static int dummy;
int _Ux86_64_getcontext(void *c) { (void)c; return 0; }
int _ULx86_64_init_local(void *c, void *u) { (void)c; (void)u; return vf_choice(2, "init_local_fails") ? -1 : 0; }
int _ULx86_64_step(void *c) { (void)c; vf_assert(at <= frames, "the walk goes on after the last frame"); if (at < frames) { at++; return 1; } at++; return 0; }
#ifdef DEEP   // the services work as theirs do: an address tells the frame, modules are known once they have been reported
static unsigned reporting, reported;
static unsigned frameOf(uint64_t a) { uint64_t k = (a - 0x100000 + 0xff) / 0x100; return k >= 1 && k <= frames ? (unsigned)k : 0; }
struct callbacks { int (*find_elf)(void), (*find_debuginfo)(void); };
int _ULx86_64_get_reg(void *c, int r, uint64_t *v) { (void)c; (void)r; *v = 0x100000 + at * 0x100; return 0; }
void *dwfl_begin(const void *cb) { const struct callbacks *k = cb; vf_assert(k && k->find_elf && k->find_debuginfo, "a debug information session is opened without the functions that find the files"); opened++; reporting = reported = 0; return &dummy; }
void dwfl_end(void *d) { vf_assert(d == &dummy && closed < opened, "a debug information session is closed twice"); closed++; }
int dwfl_linux_proc_report(void *d, int pid) { (void)d; (void)pid; reporting = 1; return 0; }
int dwfl_report_end(void *d, void *f, void *a) { (void)d; (void)f; (void)a; reported = reporting; return 0; }
void *dwfl_addrmodule(void *d, uint64_t a) { (void)d; return reported && frameOf(a) ? &dummy : 0; }
const char *dwfl_module_addrname(void *m, uint64_t a) { static char fn[16]; (void)m; sprintf(fn, "fn%u", frameOf(a)); return fn; }
void *dwfl_getsrc(void *d, uint64_t a) { static int line; (void)d; line = (int)frameOf(a); return line ? &line : 0; }
#else
int _ULx86_64_get_reg(void *c, int r, uint64_t *v) { (void)c; (void)r; if (vf_choice(2, "get_reg_fails")) return -1; VF_SYM(*v, "ip"); return 0; }
void *dwfl_begin(const void *cb) { (void)cb; if (vf_choice(2, "begin_fails")) return 0; opened++; return &dummy; }
void dwfl_end(void *d) { vf_assert(d == &dummy && closed < opened, "a debug information session is closed twice"); closed++; }
int dwfl_linux_proc_report(void *d, int pid) { (void)d; (void)pid; return 0; }
int dwfl_report_end(void *d, void *f, void *a) { (void)d; (void)f; (void)a; return 0; }
void *dwfl_addrmodule(void *d, uint64_t a) { (void)d; (void)a; return vf_choice(2, "no_module") ? 0 : &dummy; }
const char *dwfl_module_addrname(void *m, uint64_t a) { (void)m; (void)a; if (vf_choice(2, "no_name")) { if (at <= NFR) complete[at] = 0; return 0; } return "fn"; }
void *dwfl_getsrc(void *d, uint64_t a) { (void)d; (void)a; if (vf_choice(2, "no_line")) return 0; if (at <= NFR) complete[at]++; return &dummy; }
#endif
const char *dwfl_lineinfo(void *l, uint64_t *a, int *line, int *col, uint64_t *mt, uint64_t *len)
{
  (void)a; (void)col; (void)mt; (void)len;
#ifdef DEEP
  *line = *(int *)l;
#else
  (void)l;
  *line = 42;
#endif
  return file;
}
const char *dwfl_module_info(void *m, void ***u, uint64_t *s, uint64_t *e, uint64_t *db, uint64_t *sb, const char **mf, const char **df) { (void)m; (void)u; (void)s; (void)e; (void)db; (void)sb; (void)mf; (void)df; return vf_choice(2, "no_module_name") ? 0 : "mod"; }
int dwfl_linux_proc_find_elf(void) { return 0; }
int dwfl_standard_find_debuginfo(void) { return 0; }
#ifdef DEEP
#undef vf_choice
void vf_main(void)
{
  easyMock_init();
  static const unsigned F[] = {1, 63, 64, 65, NFR}, L[] = {1, 255, 256, 1050};
  unsigned len = L[vf_choice(4, "file_length")];
  memset(file, 'f', len);
  int slash = vf_choice(2, "directory") && len > 2 ? (int)len - 200 > 0 ? (int)len - 200 : 0 : -1;
  if (slash >= 0) file[slash] = '/';
  vf_symbolic(file + len - 1, 1, "file");
  vf_assume((file[len - 1] != 0) & (file[len - 1] != '/'));
  frames = F[vf_choice(5, "frames")];
  vf_assert(easyMock_printCallStack(), "call stacks are not asked for from the start");
  easyMock_setPrintCallStack(easyMock_false);
  vf_assert(!easyMock_printCallStack(), "the choice about call stacks is not kept");
  easyMock_setPrintCallStack(easyMock_true);
  vf_assert(easyMock_printCallStack(), "the choice about call stacks is not kept");
  easyMock_addError(easyMock_printCallStack(), "message %d", 7);
  unsigned n;
  const char **e = easyMock_getErrorArr(&n);
  vf_assert(n == 1, "an error with a call stack is not exactly one error");
  vf_assert(strncmp(e[0], "message 7\n\r", 11) == 0, "the message is not kept in front of the call stack");
  vf_assert(opened == closed, "a debug information session is left open");
  const char *p = e[0], *base = file + slash + 1;
  size_t bl = strlen(base);
  for (unsigned k = 1; k <= frames; k++) {
    char fn[16], line[16];
    sprintf(fn, "fn%u(", k); sprintf(line, ":%u)", k);
    p = strstr(p, fn);
    vf_assert(p != 0, "a frame whose source line is known is missing");
    p += strlen(fn);
    vf_assert(memcmp(p, base, bl) == 0 && strncmp(p + bl, line, strlen(line)) == 0, "a frame whose source line is known is not shown as function(file:line)");
    p += bl;
  }
  vf_reach("frame");
}
#else
void vf_main(void)
{
  easyMock_init();
  unsigned len = vf_choice(5, "file_length");
  vf_symbolic(file, len, "file");
  for (unsigned i = 0; i < len; i++) vf_assume(file[i] != 0);
  file[len] = 0;
  frames = vf_choice(NFR + 1, "frames");
  easyMock_addError(easyMock_true, "message %d", 7);
  easyMock_addError(easyMock_false, "second");
  unsigned n;
  const char **e = easyMock_getErrorArr(&n);
  vf_assert(n == 2, "an error with a call stack is not exactly one error");
  vf_assert(strncmp(e[0], "message 7\n\r", 11) == 0, "the message is not kept in front of the call stack");
  vf_assert(strcmp(e[1], "second") == 0, "an error without call stack is changed by the one before");
  vf_assert(opened == closed, "a debug information session is left open");
  // first frame known and shown: function name and file name without its directory
  const char *p = strstr(e[0], "\tat fn(");
  if (frames && complete[1] == 1 && p) {
    const char *base = strrchr(file, '/');
    base = base ? base + 1 : file;
    p += 7;
    size_t bl = strlen(base);
    vf_assert(strncmp(p, base, bl) == 0 && strncmp(p + bl, ":42)", 4) == 0, "a frame whose source line is known is not shown as function(file:line)");
    vf_reach("frame");
    if (base == file) vf_reach("no-directory");
  }
}
#endif

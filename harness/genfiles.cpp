// generateCode(): the two files of a mock are written completely to the right place, or the failure is reported.
#include "vf.h"
#include <CodeGeneratorCTemplate.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <errno.h>
#ifdef VF_SYMBOLIC
#define MODEL(f) f
#define REAL(f) 0 &&
#else
#define MODEL(f) __wrap_##f
#endif
#ifdef BIG   // long texts, of which the ends are symbolic
#define MAXTEXT (BIG + 16)
#else
#define MAXTEXT 40
#endif
// --- template expansion: any text
static char produced[4][MAXTEXT];
static int producedLen[4], nproduced;
static char dummy[4096];
extern "C" {
void _ZN9ctemplate18TemplateDictionaryC1ERKNS_14TemplateStringEPNS_11UnsafeArenaE(void *, void *, void *) {}
void _ZN9ctemplate18TemplateDictionaryD1Ev(void *) {}
void *_ZN9ctemplate18TemplateDictionary20AddSectionDictionaryENS_14TemplateStringE(void *, ctemplate::TemplateString) { return dummy; }
void *_ZN9ctemplate18TemplateDictionary20AddIncludeDictionaryENS_14TemplateStringE(void *, ctemplate::TemplateString) { return dummy; }
void _ZN9ctemplate18TemplateDictionary8SetValueENS_14TemplateStringES1_(void *, ctemplate::TemplateString, ctemplate::TemplateString) {}
void _ZN9ctemplate18TemplateDictionary11SetFilenameENS_14TemplateStringE(void *, ctemplate::TemplateString) {}
void *_ZN9ctemplate30mutable_default_template_cacheEv() { return dummy; }
void _ZN9ctemplate31StaticTemplateStringInitializerC1EPKNS_20StaticTemplateStringE(void *, void *) {}
bool _ZN9ctemplate13TemplateCache21StringToTemplateCacheERKNS_14TemplateStringES3_NS_5StripE(void *, void *, void *, int) { return true; }
bool _ZN9ctemplate13TemplateCache14ExpandWithDataERKNS_14TemplateStringENS_5StripEPKNS_27TemplateDictionaryInterfaceEPNS_13PerExpandDataEPNS_13ExpandEmitterE(void *, void *, int, void *, void *, ctemplate::ExpandEmitter *e)
{
  vf_assert(nproduced < 4, "too many files are generated");
  char *t = produced[nproduced];
#ifdef BIG
  static unsigned which;
  if (!nproduced) which = vf_choice(2, "length");
  int n = nproduced == which ? BIG : 4096;
  memset(t, nproduced ? 'x' : 'y', n);
  for (int i = 0; i < n; i++) {
    if (i == 4) i = n - 4;
    vf_symbolic(t + i, 1, "text");
    vf_assume(t[i] != 0);
  }
#else
  static const int lens[] = {0, 1, 5};
  int n = lens[vf_choice(3, "length")];
  vf_symbolic(t, n, "text");
  for (int i = 0; i < n; i++) vf_assume(t[i] != 0);
#endif
  if (n == 5) { memcpy(t + n, "100%d %s\n", 9); n += 9; }
  producedLen[nproduced++] = n;
#ifdef BIG   // in pieces, as templates are
  e->Emit(t, 7);
  e->Emit(t + 7, (size_t)n / 2);
  e->Emit(t + 7 + n / 2, (size_t)(n - 7 - n / 2));
#else
  e->Emit(t, (size_t)n);
#endif
  return true;
}
}
// --- files: every operation may fail
struct File { char path[80]; char text[MAXTEXT * 2]; int len, open, lost; };
static File files[4];
static int nfiles, failures, mayFail;
static int fails(const char *what) { if (!mayFail) return 0; if (vf_choice(2, what)) { failures++; errno = 28; return 1; } return 0; }
static File *ours(const void *f) { for (int i = 0; i < 4; i++) if (f == &files[i]) return &files[i]; return nullptr; }
static int put(File *f, const char *s, size_t n)
{
  vf_assert(f->open, "a file is written after it was closed");
  if (fails("write_fails")) { f->lost = 1; return -1; }
  vf_assert(f->len + n <= sizeof f->text, "more is written than was generated");
  memcpy(f->text + f->len, s, n);
  f->len += (int)n;
  return (int)n;
}
extern "C" {
#ifndef VF_SYMBOLIC
FILE *__real_fopen(const char *, const char *);
int __real_fclose(FILE *);
size_t __real_fwrite(const void *, size_t, size_t, FILE *);
int __real_fputs(const char *, FILE *);
int __real_fputc(int, FILE *);
int __real_fflush(FILE *);
#endif
FILE *MODEL(fopen)(const char *p, const char *m)
{
#ifndef VF_SYMBOLIC
  if (!mayFail && !nproduced) return __real_fopen(p, m);
#endif
  vf_assert(m[0] == 'w', "the file is not opened for writing from the start");
  if (fails("open_fails")) return nullptr;
  vf_assert(nfiles < 4 && strlen(p) < 80, "too many files are opened");
  File *f = &files[nfiles++];
  for (char *q = f->path; (*q = *p); p++) if (!(p[0] == '/' && p[1] == '/')) q++;   // a//b is a/b
  f->open = 1;
  return (FILE *)f;
}
int MODEL(fclose)(FILE *h)
{
  File *f = ours(h);
#ifndef VF_SYMBOLIC
  if (!f) return __real_fclose(h);
#endif
  vf_assert(f && f->open, "a file is closed twice");
  f->open = 0;
  if (fails("close_fails")) { f->lost = 1; return EOF; }
  return 0;
}
int MODEL(fflush)(FILE *h)
{
  File *f = ours(h);
#ifndef VF_SYMBOLIC
  if (!f) return __real_fflush(h);
#endif
  if (f && fails("flush_fails")) { f->lost = 1; return EOF; }
  return 0;
}
int MODEL(ferror)(FILE *h) { File *f = ours(h); return f ? f->lost : 0; }
size_t MODEL(fwrite)(const void *p, size_t s, size_t n, FILE *h)
{
  File *f = ours(h);
#ifndef VF_SYMBOLIC
  if (!f) return __real_fwrite(p, s, n, h);
#endif
  if (!f) return n;
  return put(f, (const char *)p, s * n) < 0 ? 0 : n;
}
int MODEL(fputs)(const char *s, FILE *h)
{
  File *f = ours(h);
#ifndef VF_SYMBOLIC
  if (!f) return __real_fputs(s, h);
#endif
  return f ? put(f, s, strlen(s)) : 0;
}
int MODEL(fputc)(int c, FILE *h)
{
  File *f = ours(h);
  char x = (char)c;
#ifndef VF_SYMBOLIC
  if (!f) return __real_fputc(c, h);
#endif
  return f ? put(f, &x, 1) : 0;
}
int MODEL(fprintf)(FILE *h, const char *fmt, ...)
{
  File *f = ours(h);
  if (!f) return 0;
  va_list ap;
  va_start(ap, fmt);
  char b[MAXTEXT * 2];
  int n = vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  vf_assert(n < (int)sizeof b, "more is written than was generated");
  return put(f, b, (size_t)n);
}
}
// the directory of another process does not matter here
extern "C" int vf_fs_kind(const char *) { return 1; }

static void word(std::string &s, int len, const char *name)
{
  char b[8];
  vf_symbolic(b, len, name);
  for (int i = 0; i < len; i++) vf_assume((b[i] != 0) & (b[i] != '/') & (b[i] != '.'));
  s.append(b, len);
}
void vf_main(void)
{
  std::string dir, base, ext, header;
#ifdef BIG
  dir = "dir";
  base = "name";
  ext = ".h";
  header = base + ext;
#else
  word(dir, 2, "directory");
  word(base, 2, "name");
  if (vf_choice(2, "dot_in_name")) { base += "."; word(base, 1, "name2"); }
  switch (vf_choice(3, "extension")) { case 0: ext = ".h"; break; case 1: ext = ".hpp"; break; }
  if (ext.empty()) vf_assume(base.find('.') == std::string::npos);
  switch (vf_choice(3, "header_is")) { case 0: header = "/"; word(header, 1, "parent"); header += "/"; break; case 1: word(header, 1, "parent"); header += ".d/"; break; }
  header += base + ext;
#endif
  CodeGeneratorCTemplate cg;
#ifdef BIG
  int cpp = 0;
#else
  int cpp = (int)vf_choice(2, "cpp");
  cg.setGenerateUsedType(vf_choice(2, "generate_types"));
#endif
  cg.setCpp(cpp);
  ElementToMockContext ctxt;
  mayFail = MAYFAIL;
  nproduced = 0;
  CodeGeneratorItf &itf = cg;
  bool ok = itf.generateCode(dir, header, ctxt);
  if (!ok) { vf_assert(failures > 0, "generating fails although every file could be written"); vf_reach("failed"); return; }
  vf_assert(failures == 0, "generating succeeds although a file could not be written");
  vf_assert(nfiles == 2 && nproduced == 2, "a mock is not one source and one header");
  std::string source = dir + "/easyMock_" + base + (cpp ? ".cpp" : ".c"), hdr = dir + "/easyMock_" + base + ".h";
  for (int i = 0; i < 2; i++) {
    vf_assert(!files[i].open, "a file is not closed");
    bool isSource = source == files[i].path;
    vf_assert(isSource || hdr == files[i].path, "a file of the mock is written to another place than <directory>/easyMock_<header>");
    if (i) vf_assert((source == files[0].path) != isSource, "both files are written to the same place");
    // the two expansions may come in any order, but each file holds all of one of them and nothing else
    bool one = false;
    for (int k = 0; k < 2; k++) {
      bool same = files[i].len == producedLen[k];
      for (int b = 0; same && b < producedLen[k]; b += MAXTEXT > 40 && b > 64 && b + 150 < producedLen[k] ? 97 : 1) same &= files[i].text[b] == produced[k][b];
      one |= same;
    }
    vf_assert(one, "a file of the mock does not hold exactly what was generated");
  }
  vf_reach("written");
}

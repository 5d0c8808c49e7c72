// Command lines of EasyMockGenerate, and what they mean: an oracle written from the documentation.
#pragma once
#include "vf.h"
#include <CmdLineParser.h>
#include <string>
#include <vector>
#include <cstring>
#ifndef VLEN
#define VLEN 2
#endif
enum { I, O, MOCK, HELP, HELPS, CWD, ATTR, TYPES, CPP, IGNERR, INCL, FIELD, IGNFUN, CMP, NOPT, TEXT = NOPT };
// the documented spelling, independent of the constants of the code
static const char *const optText[NOPT] = {"-i", "-o", "--mock-only", "--help", "-h", "--cwd", "--generate-attribute", "--generate-types", "--mock-cpp", "--ignore-parser-error", "--generate-included-functions", "--ignore-field-generation-of", "--ignore-generation-of", "--generate-comparator-of"};
static bool takesValue(int k) { return k == I || k == O || k == MOCK || k == CWD || k == ATTR || k == FIELD || k == IGNFUN || k == CMP; }
#if MODE == 2
#define MAXT 64
#define MAXW 5100
#else
#define MAXT 12
#define MAXW 32
#endif
static int kind[MAXT];
static char text[MAXT][MAXW];
static int nt;
static int nsym;
static void opt(int k) { kind[nt] = k; strcpy(text[nt], optText[k]); nt++; }
// a word of the command line which is no option: a value, or an argument for the parser
static void word(bool value)
{
  char *t = text[nt];
  kind[nt++] = TEXT;
  int len = nsym++ == 0 ? 1 : VLEN;
  vf_symbolic(t, len, "word");
  for (int i = 0; i < len; i++) { vf_assume(t[i] != 0); if (i) vf_assume(t[i] != '/'); }
  t[len] = 0;
  if (value) vf_assume(t[0] != '-');
  else if (len == 2) vf_assume(!(t[0] == '-' && ((t[1] == 'i') | (t[1] == 'o') | (t[1] == 'h'))));
}
static void item(int k) { if (k == TEXT) { word(false); return; } opt(k); if (takesValue(k)) word(true); }


// the meaning of the command line
static const char *vi, *vo, *cwd, *extra[MAXT], *lists[NOPT][MAXT];
static int nl[NOPT], nx, errors;
static bool flags[NOPT], odd, help;
static const std::string *err;
static const char *argv[MAXT + 2];
static char inPath[80], outPath[80];   // relative paths taken from the directory given to --cwd
static int inKind, outKind;            // what is there: 0 nothing, 1 file, 2 directory, 3 anything else
static void join(char *to, const char *cwd, const char *p)
{
  to[0] = 0;
  if (p[0] != '/' && cwd) { strcpy(to, cwd); if (to[0] && to[strlen(to) - 1] != '/') strcat(to, "/"); }
  strcat(to, p);
}
static int fsKind(const char *path)
{
  if (strcmp(path, inPath) == 0) return inKind;
  if (strcmp(path, outPath) == 0) return outKind;
  return vf_int("kind_of_other_path") & 3;
}
template <class S> static void listIs(const S &l, const char *const *v, int n, const char *lost, const char *more)
{
  int distinct = 0;
  for (int i = 0; i < n; i++) {
    vf_assert(l.count(v[i]) == 1, lost);
    bool again = false;
    for (int j = 0; j < i; j++) again |= strcmp(v[i], v[j]) == 0;
    distinct += !again;
  }
  vf_assert((int)l.size() == distinct, more);
}
static void buildLine()
{
#if MODE == 0   // a complete command line: -i, -o and NW further options or arguments, in any order
  int pi = (int)vf_choice(NW + 2, "position_of_i"), po = (int)vf_choice(NW + 1, "position_of_o");
  if (po >= pi) po++;
  for (int n = 0; n < NW + 2; n++) {
    if (n == pi) item(I);
    else if (n == po) item(O);
    else item(2 + (int)vf_choice(NOPT + 1 - 2, "option"));
  }
#elif MODE == 2 // the same option many times, with long values, or many arguments for the parser, some of them almost options
  item(I);
  if (vf_choice(2, "output_first")) item(O);
  static const int K[] = {MOCK, ATTR, FIELD, IGNFUN, CMP, TEXT}, L[] = {8, 256, 5000};
  unsigned what = vf_choice(7, "many"), len = (unsigned)L[what < 6 ? vf_choice(3, "length") : 0];
  if (what < 6) for (int n = 0; n < NW; n++) {
    if (K[what] != TEXT) opt(K[what]);
    char *t = text[nt];
    kind[nt++] = TEXT;
    memset(t, 'w', len);
    t[0] = (char)('a' + n % 26); t[1] = (char)('a' + n / 26); t[len] = 0;
    if (n == 0 || n == NW - 1) { vf_symbolic(t + len - 1, 1, "word"); vf_assume(t[len - 1] != 0); }
  } else {
    int k = (int)vf_choice(NOPT, "almost");
    char *t = text[nt];
    kind[nt++] = TEXT;
    strcpy(t, optText[k]);
    if (vf_choice(2, "longer")) { size_t l = strlen(t); vf_symbolic(t + l, 1, "word"); vf_assume(t[l] != 0); t[l + 1] = 0; }
    else t[strlen(t) - 1] = 0;
  }
  bool have = false;
  for (int n = 0; n < nt; n++) have |= kind[n] == O;
  if (!have) item(O);
#else           // NW words, each any option or any other text, after a complete start or not
  if (vf_choice(2, "complete")) { item(I); item(O); }
  for (int n = 0; n < NW; n++) { int k = (int)vf_choice(NOPT + 1, "word_is"); if (k == TEXT) word(false); else opt(k); }
#endif
  argv[0] = "EasyMockGenerate";
  for (int n = 0; n < nt; n++) argv[n + 1] = text[n];
  argv[nt + 1] = nullptr;
}
static void understand()
{
  // what the command line means
  auto error = [&](const std::string &e) { errors++; err = &e; };
  for (int n = 0; n < nt; n++) {
    int k = kind[n];
    if (k == TEXT) { extra[nx++] = text[n]; continue; }
    if (k == HELP || k == HELPS) { help = true; break; }
    if (!takesValue(k)) { flags[k] = true; continue; }
    bool have = n + 1 < nt && text[n + 1][0] != '-';
    if (k == I || k == O) {
      if (!have) { odd = true; continue; }    // taken for no option; whatever else is said about the line is not specified
      const char *&v = k == I ? vi : vo;
      if (v) error(k == I ? g_minusIParameterGivenTwice : g_minusOParameterGivenTwice);
      v = text[++n];
      continue;
    }
    if (k == CWD && cwd) error(g_errorCwdMoreThanOnce);
    if (!have) { error(k == MOCK ? g_errorMockOnlyParamMissing : k == CWD ? g_errorCwdMissing : k == ATTR ? g_errorGenerateAttrAttrMissing : k == FIELD ? g_errorIgnoreFieldGenerationOfArgumentMissing : k == IGNFUN ? g_errorIgnoreGenerationOfArgumentMissing : g_errorGenerateComparatorOfArgumentMissing); continue; }
    n++;
    if (k == CWD) cwd = text[n]; else lists[k][nl[k]++] = text[n];
  }
  inKind = (int)vf_range(4, "what_is_at_i");
  outKind = (int)vf_range(4, "what_is_at_o");
  if (vi) join(inPath, cwd, vi);
  if (vo) join(outPath, cwd, vo);
  if (vi && vo && strcmp(inPath, outPath) == 0) vf_assume(inKind == outKind);
  if (!vi) { errors += !help; err = &g_errorInputMissing; }
  else if (inKind != 1) { errors++; err = &g_inputFileIsntRegular; }
  if (!vo) { errors += !help; err = &g_errorOutputMissing; }
  else if (outKind != 2) { errors++; err = &g_outputDirIsntDir; }

}

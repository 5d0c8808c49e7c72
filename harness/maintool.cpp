// main(): the options reach the parser and the generator, and the exit status tells whether the mock was written.
#include "cmdline.h"
#include <sys/stat.h>
#include <errno.h>
#include <LLVMParser.h>
#include <CodeGeneratorCTemplate.h>
#include <ElementToMockContext.h>
int easymock_main(int argc, char *argv[]);
static int changed;        // the working directory was changed to the one given to --cwd
static int chdirFails, parseFails, generateFails;
static int parsed, generated;
static char here[96];
// the path as seen from the directory the program was started in
static const char *resolve(const char *p) { join(here, changed ? cwd : nullptr, p); return here; }
extern "C" int vf_fs_kind(const char *path) { return fsKind(resolve(path)); }
#ifdef VF_SYMBOLIC
#define MODEL(f) f
#else
#define MODEL(f) __wrap_##f
#endif
extern "C" int MODEL(chdir)(const char *p)
{
  vf_assert(cwd && strcmp(p, cwd) == 0, "the working directory is changed to a directory which was not asked for");
  vf_assert(!changed, "the working directory is changed twice");
  if (chdirFails) { errno = 2; return -1; }
  changed = 1;
  return 0;
}
extern "C" int MODEL(stat)(const char *p, struct stat *b)
{
  int k = vf_fs_kind(p);
  memset(b, 0, sizeof *b);
  b->st_mode = k == 1 ? S_IFREG : k == 2 ? S_IFDIR : S_IFIFO;
  return k == 0 ? -1 : 0;
}
LLVMParser::LLVMParser() {}
LLVMParser::~LLVMParser() {}
CodeParser_errCode LLVMParser::getElementToMockContext(ElementToMockContext &p_ctxt) const
{
  parsed++;
  vf_assert(!help && !errors && !(cwd && chdirFails), "a header is parsed although the command line is wrong");
  vf_assert(strcmp(resolve(m_filename.c_str()), inPath) == 0, "the parser reads another file than the one given to -i");
  vf_assert((int)m_flags.size() == nx, "the number of arguments for the parser is not the number of words which are no options");
  for (int n = 0; n < nx; n++) vf_assert(m_flags[n] == extra[n], "an argument for the parser is changed or out of order");
  listIs(m_mockOnlyList, lists[MOCK], nl[MOCK], "a value of --mock-only does not reach the parser", "the parser mocks only functions which were not given to --mock-only");
  listIs(m_ignoreTypeFieldList, lists[FIELD], nl[FIELD], "a value of --ignore-field-generation-of does not reach the parser", "the parser ignores fields which were not given to --ignore-field-generation-of");
  listIs(m_ignoreFunList, lists[IGNFUN], nl[IGNFUN], "a value of --ignore-generation-of does not reach the parser", "the parser ignores functions which were not given to --ignore-generation-of");
  vf_assert(m_parseIncludedFunctions == flags[INCL], "--generate-included-functions does not reach the parser");
  vf_assert(m_forceCpp == flags[CPP], "--mock-cpp does not reach the parser");
  p_ctxt.addMacroDefine("FOUND_BY_THE_PARSER", {}, "1", "x.h");
  return parseFails ? cp_ERROR : cp_OK;
}
CodeGeneratorCTemplate::CodeGeneratorCTemplate() {}
bool CodeGeneratorCTemplate::generateCodeImplementation(const std::string &p_outDir, const std::string &p_header, const ElementToMockContext &p_elem)
{
  generated++;
  vf_assert(parsed == 1, "a mock is generated before the header is parsed");
  vf_assert(!parseFails || flags[IGNERR], "a mock is generated although the header could not be parsed");
  vf_assert(strcmp(resolve(p_outDir.c_str()), outPath) == 0, "the mock is not written into the directory given to -o");
  vf_assert(strcmp(resolve(p_header.c_str()), inPath) == 0, "the mock is generated for another header than the one given to -i");
  vf_assert(p_elem.getCrossDefinedMap().size() == 1, "the generator does not get what the parser found");
  listIs(m_mockOnlyList, lists[MOCK], nl[MOCK], "a value of --mock-only does not reach the generator", "the generator mocks only functions which were not given to --mock-only");
  listIs(m_generateAttrList, lists[ATTR], nl[ATTR], "a value of --generate-attribute does not reach the generator", "the generator generates attributes which were not given to --generate-attribute");
  listIs(m_comparatorList, lists[CMP], nl[CMP], "a value of --generate-comparator-of does not reach the generator", "the generator generates comparators which were not given to --generate-comparator-of");
  vf_assert(m_generateUsedType == flags[TYPES], "--generate-types does not reach the generator");
  vf_assert(m_isCpp == flags[CPP], "--mock-cpp does not reach the generator");
  return !generateFails;
}
void vf_main(void)
{
  buildLine();
  understand();
  vf_assume(!odd);
  chdirFails = (int)vf_range(2, "chdir_fails");
  parseFails = (int)vf_range(2, "parse_fails");
  generateFails = (int)vf_range(2, "generate_fails");
  int rc = easymock_main(nt + 1, const_cast<char **>(argv));
  bool ok = !help && !errors && !(cwd && chdirFails) && (!parseFails || flags[IGNERR]) && !generateFails;
  if (help) { vf_assert(parsed == 0 && generated == 0, "a mock is generated although only help is asked for"); if (errors == 0) vf_assert(rc == 0, "asking for help ends with an error status"); vf_reach("help"); return; }
  vf_assert((rc == 0) == ok, "the exit status does not tell whether the mock was generated");
  if (ok) { vf_assert(generated == 1, "no mock is generated although the exit status is success"); vf_reach("generated"); }
  else vf_reach("failed");
  if (parsed && !generated) vf_assert(parseFails && !flags[IGNERR], "no mock is generated although the header could be parsed");
}

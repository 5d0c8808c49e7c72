// CmdLineParser: what a command line of EasyMockGenerate asks for, for every sequence of options and every value.
#include "cmdline.h"
extern "C" int vf_fs_kind(const char *path) { return fsKind(path); }
void vf_main(void)
{
  buildLine();
  understand();
  CmdLineParser parser;
  EasyMockOptions o = parser.getParsedArguments(nt + 1, argv);
  bool gotErr = !o.m_errorMessage.empty(), gotHelp = !o.m_helpMessage.empty();
  if (help) {
    vf_assert(gotHelp || gotErr, "the help which the command line asks for is not given");
    vf_assert(gotHelp || errors > 0 || odd, "an error is reported instead of the help which a correct command line asks for");
    vf_reach("help");
    return;
  }
  vf_assert(!gotHelp, "help is given although the command line does not ask for it");
  if (odd) {
    vf_assert(gotErr || (vi && vo), "a command line without input file or output directory is accepted");
    return;
  }
  if (errors) {
    vf_assert(gotErr, "a wrong command line is accepted");
    if (errors == 1) { vf_assert(o.m_errorMessage == *err, "the error message is about something else than the only mistake of the command line"); vf_reach("error"); }
    return;
  }
  vf_assert(!gotErr, "a correct command line is rejected");
  vf_assert(o.m_inputHeaderFile == vi, "the input file is not the value given to -i");
  vf_assert(o.m_outputDir == vo, "the output directory is not the value given to -o");
  vf_assert(o.m_changeWorkingDir == (cwd ? cwd : ""), "the working directory is not the value given to --cwd");
  vf_assert(o.m_generateTypes == flags[TYPES], "--generate-types is lost or invented");
  vf_assert(o.m_mockCpp == flags[CPP], "--mock-cpp is lost or invented");
  vf_assert(o.m_ignoreParserError == flags[IGNERR], "--ignore-parser-error is lost or invented");
  vf_assert(o.m_generateIncludedFunctions == flags[INCL], "--generate-included-functions is lost or invented");
  listIs(o.m_mockOnlyList, lists[MOCK], nl[MOCK], "a value of --mock-only is lost", "--mock-only has values which were not given");
  listIs(o.m_generateAttrList, lists[ATTR], nl[ATTR], "a value of --generate-attribute is lost", "--generate-attribute has values which were not given");
  listIs(o.m_ignoreTypeList, lists[FIELD], nl[FIELD], "a value of --ignore-field-generation-of is lost", "--ignore-field-generation-of has values which were not given");
  listIs(o.m_ignoreFunList, lists[IGNFUN], nl[IGNFUN], "a value of --ignore-generation-of is lost", "--ignore-generation-of has values which were not given");
  listIs(o.m_comparatorList, lists[CMP], nl[CMP], "a value of --generate-comparator-of is lost", "--generate-comparator-of has values which were not given");
  vf_assert((int)o.m_extraArgs.size() == nx, "the number of arguments for the parser is not the number of words which are no options");
  for (int n = 0; n < nx; n++) vf_assert(o.m_extraArgs[n] == extra[n], "an argument for the parser is changed or out of order");
  vf_reach("accepted");
  if (nx) vf_reach("extra");
}

// G01: every argument list over an alphabet, compared with a specification of the documented command line.
#include <CmdLineParser.h>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <algorithm>
#include <unistd.h>
#include <sys/stat.h>
using std::string; using std::vector;

struct Spec { string err, help, in, out, cwd; std::set<string> mockOnly, ignoreFun, ignoreField, cmp, attr; vector<string> extra; bool types = false, incl = false, cpp = false, ipe = false; };

static bool isfile(const string& p) { struct stat s; return stat(p.c_str(), &s) == 0 && S_ISREG(s.st_mode); }
static bool isdir(const string& p) { struct stat s; return stat(p.c_str(), &s) == 0 && S_ISDIR(s.st_mode); }
static string rel(const string& cwd, const string& p) { return p.empty() || p[0] == '/' || cwd.empty() ? p : cwd + "/" + p; }

static Spec spec(const vector<string>& a)
{
  Spec s;
  struct L { const char* name; std::set<string>* to; const char* err; };
  L lists[] = {{"--mock-only", &s.mockOnly, "Error: Argument to --mock-only is missing"},
               {"--generate-attribute", &s.attr, "Error: Argument --generate-attribute needs a value"},
               {"--ignore-field-generation-of", &s.ignoreField, "Error: Argument --ignore-field-generation-of needs a value"},
               {"--ignore-generation-of", &s.ignoreFun, "Error: Argument --ignore-generation-of needs a value"},
               {"--generate-comparator-of", &s.cmp, "Error: Argument --generate-comparator-of needs a value"}};
  struct S1 { const char* name; string* to; const char* twice; const char* miss; };
  S1 singles[] = {{"-i", &s.in, "Error: -i argument can be used only once", "Error: The input header file is not provided"},
                  {"-o", &s.out, "Error: -o argument can be used only once", "Error: The output directory is not provided"},
                  {"--cwd", &s.cwd, "Error: Argument to --cwd is given more than once", "Error: Argument to --cwd is missing"}};
  struct F { const char* name; bool* to; };
  F flags[] = {{"--generate-types", &s.types}, {"--generate-included-functions", &s.incl}, {"--mock-cpp", &s.cpp}, {"--ignore-parser-error", &s.ipe}};
  for(size_t i = 0; i < a.size(); i++)
  {
    bool done = false;
    bool val = i + 1 < a.size() && a[i + 1].substr(0, 1) != "-";
    if(a[i] == "-h" || a[i] == "--help") { s.help = "help"; return s; }
    for(auto& l : lists) if(a[i] == l.name) { done = true; if(!val) { s.err = l.err; return s; } l.to->insert(a[++i]); break; }
    if(done) continue;
    for(auto& l : singles) if(a[i] == l.name) { done = true; if(!l.to->empty()) { s.err = l.twice; return s; } if(!val) { s.err = l.miss; return s; } *l.to = a[++i]; break; }
    if(done) continue;
    for(auto& f : flags) if(a[i] == f.name) { done = true; *f.to = true; }
    if(!done) s.extra.push_back(a[i]);
  }
  if(s.in.empty()) s.err = "Error: The input header file is not provided";
  else if(s.out.empty()) s.err = "Error: The output directory is not provided";
  else if(!isfile(rel(s.cwd, s.in))) s.err = "Error: Path given to -i isn't a regular file";
  else if(!isdir(rel(s.cwd, s.out))) s.err = "Error: Path given to -o isn't a directory";
  return s;
}

static long nrun, nbad, nopt, nerr, nhelp;
template <class C> static bool same(const C& c, const std::set<string>& e) { std::set<string> g; for(auto& x : c) g.insert(x); return g == e; }

static void one(const vector<string>& a)
{
  nrun++;
  vector<const char*> argv;
  argv.push_back("./EasyMockGenerate");
  for(auto& x : a) argv.push_back(x.c_str());
  argv.push_back(nullptr);
  const char** heap = (const char**)malloc(argv.size() * sizeof(char*));
  memcpy(heap, argv.data(), argv.size() * sizeof(char*));
  CmdLineParser p;
  EasyMockOptions o = p.getParsedArguments((int)argv.size() - 1, heap);
  free(heap);
  Spec s = spec(a);
  string why;
  if(!s.help.empty()) { nhelp++; if(o.m_helpMessage.empty()) why = "help was not given"; else if(o.m_helpMessage.find("OPTIONS") == string::npos) why = "help text"; }
  else if(!s.err.empty()) { nerr++; if(!o.m_helpMessage.empty()) why = "help given"; else if(o.m_errorMessage != s.err) why = "error '" + o.m_errorMessage + "' instead of '" + s.err + "'"; }
  else
  {
    nopt++;
    if(!o.m_helpMessage.empty()) why = "help given";
    else if(!o.m_errorMessage.empty()) why = "refused: " + o.m_errorMessage;
    else if(o.m_inputHeaderFile != s.in) why = "-i is '" + o.m_inputHeaderFile + "'";
    else if(o.m_outputDir != s.out) why = "-o is '" + o.m_outputDir + "'";
    else if(o.m_changeWorkingDir != s.cwd) why = "--cwd is '" + o.m_changeWorkingDir + "'";
    else if(!same(o.m_mockOnlyList, s.mockOnly)) why = "--mock-only list";
    else if(!same(o.m_ignoreFunList, s.ignoreFun)) why = "--ignore-generation-of list";
    else if(!same(o.m_ignoreTypeList, s.ignoreField)) why = "--ignore-field-generation-of list";
    else if(!same(o.m_comparatorList, s.cmp)) why = "--generate-comparator-of list";
    else if(!same(o.m_generateAttrList, s.attr)) why = "--generate-attribute list";
    else if(o.m_generateTypes != s.types) why = "--generate-types";
    else if(o.m_generateIncludedFunctions != s.incl) why = "--generate-included-functions";
    else if(o.m_mockCpp != s.cpp) why = "--mock-cpp";
    else if(o.m_ignoreParserError != s.ipe) why = "--ignore-parser-error";
    else if(!(vector<string>(o.m_extraArgs.begin(), o.m_extraArgs.end()) == s.extra)) why = "extra arguments";
  }
  if(!why.empty() && nbad++ < 30)
  {
    printf("BAD");
    for(auto& x : a) printf(" '%s'", x.size() > 60 ? (x.substr(0, 60) + "...").c_str() : x.c_str());
    printf(" | %s\n", why.c_str());
  }
}

static void enumerate(const vector<string>& al, int depth, vector<string>& cur, const vector<vector<string>>& base)
{
  if(base.empty()) one(cur);
  else
    // the required options at every pair of positions of the list
    for(size_t i = 0; i <= cur.size(); i++) for(size_t j = i; j <= cur.size(); j++) for(int sw = 0; sw < 2; sw++)
    {
      vector<string> l;
      for(size_t k = 0; k <= cur.size(); k++)
      {
        if(k == i) l.insert(l.end(), base[sw].begin(), base[sw].end());
        if(k == j) l.insert(l.end(), base[!sw].begin(), base[!sw].end());
        if(k < cur.size()) l.push_back(cur[k]);
      }
      one(l);
    }
  if((int)cur.size() == depth) return;
  for(auto& x : al) { cur.push_back(x); enumerate(al, depth, cur, base); cur.pop_back(); }
}

int main(int argc, char** argv)
{
  // argv: mode depth scratch part nparts
  string mode = argv[1]; int depth = atoi(argv[2]); string d = argv[3]; int part = atoi(argv[4]), np = atoi(argv[5]);
  if(chdir(d.c_str())) return 3;
  vector<string> al = {"-i", "-o", "h.h", d + "/h.h", "out", "nofile", "sub", "-h", "--help", "--mock-only", "--cwd", "--generate-types", "--generate-included-functions", "--generate-attribute",
    "--ignore-field-generation-of", "--ignore-generation-of", "--generate-comparator-of", "--mock-cpp", "--ignore-parser-error", "-I", "-", "--", "--mock-onl", "-ih.h", "--cwdx", "-DX=1", "fn", "HELP", "--mock-only=fn"};
  string lng(6000, 'x');
  vector<vector<string>> none, base = {{"-i", d + "/h.h"}, {"-o", d + "/out"}}, base2 = {{"-i", "h2.h"}, {"-o", "out2"}};
  vector<string> cur;
  auto slice = [&](const vector<vector<string>>& b, int dep) {
    // the first element is split over the parts
    if(part == 0) { vector<string> c; enumerate(al, 0, c, b); }
    for(size_t k = 0; k < al.size(); k++) if((int)(k % np) == part) { vector<string> c{al[k]}; enumerate(al, dep, c, b); }
  };
  if(mode == "plain") slice(none, depth);
  if(mode == "base") slice(base, depth);
  if(mode == "rel") { al.push_back("sub/sub2"); slice(base2, depth); }
  if(mode == "long" && part == 0)
    for(auto& x : {lng, string(255, 'f'), string(256, 'f'), string("a\nb"), string("sp ace"), string("%s%n"), string("\xff\xfe"), string("/proc/self/nonexistent"), string("h.h/x"), string("loop"), string("loop/x")})
      for(auto& o : al)
      {
        one({o, x}); one({x, o}); one({"-i", x, "-o", "out"}); one({"-i", "h.h", "-o", x}); one({"-i", "h.h", "-o", "out", o, x}); one({"-i", "h.h", "-o", "out", x, o});
        one({"-i", "h2.h", "-o", "out2", "--cwd", x}); one({"-i", "h.h", "-o", "out", "--cwd", x, o});
        vector<string> many; for(int i = 0; i < 300; i++) { many.push_back(o); many.push_back(x.substr(0, 20) + std::to_string(i)); }
        one(many); many.insert(many.end(), {"-i", "h.h", "-o", "out"}); one(many);
      }
  printf("RUNS %ld OPT %ld ERR %ld HELP %ld BAD %ld\n", nrun, nopt, nerr, nhelp, nbad);
  return 0;
}

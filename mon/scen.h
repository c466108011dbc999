// One program using the library from end to end, all its choices fixed by a seed, and a record of everything observable it did.
#ifndef MON_SCEN_H
#define MON_SCEN_H
#include "model.h"
#include "work.h"
struct Outcome { std::string name; uint64_t h; bool graphLevel; };    // graphLevel: independent of local numbering
typedef std::vector<Outcome> Trace;
struct ScenOpts { bool ordered; bool judge; std::string dir; int maxV; unsigned skip; int verbosity, maxT; bool fresh; ScenOpts() : ordered(true), judge(true), maxV(60), skip(0), verbosity(-1), maxT(4), fresh(false) {} };
enum { SK_BALANCE = 1, SK_SPLIT = 2, SK_FILES = 4, SK_PRINT = 8 };
// runs the program; false if a comparison with the model failed (reported)
bool scenario(uint64_t seed, const ScenOpts& o, Trace& t, std::string* desc = NULL);
void oddments(Rng& r);     // plans and objects that are made, changed and thrown away
#endif

// Stateless deviation-bounded model checker: explorer, deterministic arena, worker pool.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <functional>
#include <set>
#include <string>
#include <vector>

namespace mc {

enum Kind { FREE = 0, DEV = 1 };
enum class Tier { quick, thorough };

// --- used inside an execution -------------------------------------------------
// returns a value in [0, n); 0 is the default answer
int choose(int n, Kind kind, const char *label);
// records a violation of property `prop` ("*" = whatever property is being checked)
void fail(const char *prop, const char *sig, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
// appends to the observation log of the execution
void obs(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void step(); // counts a transition
bool failed();
bool warming(); // running the warm-up execution outside of the arena: nothing is checked
bool failing_or_over();
extern bool verbose; // replay mode: print observations
// the property currently being checked
const std::string &property();
bool wants(const char *prop);

// --- deterministic arena --------------------------------------------------------
struct ArenaOff { // temporarily allocate from malloc
    ArenaOff();
    ~ArenaOff();
    bool saved;
};
size_t arena_live();       // live allocations of this execution
size_t arena_live_bytes();
char *arena_base();
extern void (*on_free)(void *, size_t); // called before the memory is given back
void arena_dump(int max);  // print live allocations
void arena_layout(unsigned salt); // perturbs addresses => hash-map iteration order

// --- scenarios ---------------------------------------------------------------------
struct Scenario {
    std::string name;
    std::set<std::string> props;
    std::function<int(Tier)> configs;          // number of configurations (exhausted)
    std::function<void(int cfg)> run;          // one execution
    std::function<std::string(int)> describe;  // human readable configuration
    int bound_quick = 1;
    int bound_thorough = 2;
    int shards = 1;                            // parallel split of the search tree of one configuration
    double cap_s = 0;
};
struct Reg {
    Reg(Scenario s);
};
std::vector<Scenario> &scenarios();

extern const char *every_property; // all scenarios of the engine decide it, too
extern bool every_property_judges_all; // each violation of any property of the scenario is one of every_property
extern int bound_less;              // bounds of all scenarios are reduced
int main(int argc, char **argv, const char *engine);

} // namespace mc

prop="C13"
needs="several threads generating ids at the same time"
breaks="the minor id counter is read and written in two steps, so two threads can obtain the same id"
edits=[("projects/dataclasses/private/ParticleID.cxx",
"    ID.minor_id = global_minor_id_.fetch_add(1);",
"    ID.minor_id = global_minor_id_.load();\n    global_minor_id_.store(ID.minor_id + 1);")]
demo=r'''
#include <cstdio>
#include <set>
#include <thread>
#include <vector>
#include <utility>
#include "SIREN/dataclasses/ParticleID.h"
using namespace siren::dataclasses;
int main() {
    std::vector<std::vector<ParticleID>> v(4);
    std::vector<std::thread> ts;
    for(int i = 0; i < 4; ++i) ts.emplace_back([&v, i] { for(int k = 0; k < 200000; ++k) v[i].push_back(ParticleID::GenerateID()); });
    for(auto & t : ts) t.join();
    std::set<std::pair<uint64_t, int32_t>> s;
    for(auto & x : v) for(auto & id : x) s.emplace(id.GetMajorID(), id.GetMinorID());
    std::printf("%zu\n", s.size());
    return s.size() == 800000 ? 0 : 1;
}
'''

// Plain values, and strict readers of the formats that the code under test writes.
#ifndef SIM_VALUE_H
#define SIM_VALUE_H

#include <string>
#include <utility>
#include <vector>

#include "../workloads/node.h"

struct Val {
    enum Kind { Null, True, False, Number, String, Array, Object } kind = Null;
    std::string text; //< number as written, or string
    std::vector<Val> items;
    std::vector<std::pair<std::string, Val> > members; //< in order
    const Val* get(const std::string& key) const
    {
        for (const auto& m : members)
            if (m.first == key)
                return &m.second;
        return nullptr;
    }
};
struct Malformed {
    std::size_t at;
    std::string what;
};
Val read_json(const std::string&); // throws Malformed
Val read_yaml(const std::string&); // throws Malformed
bool equal(const Val&, const Val&, std::string& where);
bool number_syntax(const std::string&); //< of JSON

bool valid_utf8(const std::string&);

// what serializing an element has to give
Val expected_value(const Node&, bool sourcemaps);

#endif

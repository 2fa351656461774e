// Random API Blueprint documents.
#ifndef SIM_DOC_H
#define SIM_DOC_H

#include <cstddef>
#include <string>
#include <vector>

#include "../engine/core.h"

struct DocStyle {
    int budget = 40;       //< lines, about
    bool errors = true;    //< keywords and sections out of place
    bool unicode = true;
    bool mson = true;
    bool bodies = true;
    bool fixed = false; //< most types are
};
extern const char* const* const corpus[]; //< lines of each, the last one is null
extern const std::size_t corpus_count;
std::vector<std::string> random_document(sim::Rng&, DocStyle);

// damage that storage or transfer does to a document
std::string damaged(const std::string& text, const std::string& kind, std::uint64_t a, std::uint64_t b);
extern const char* const damages[];
extern const int damages_count;

#endif

// A plain value model of an element tree, with a text form without blanks (the form plans carry):
//   T[!name][~][="scalar"][m(key=elem;...)][a(key=elem;...)][[elem,elem]]
// T: Z null, H holder, S string, N number, B boolean, A array, E enum, M member, O object, R ref,
//    X extend, P option, L select; '~' marks an element without value; '_' is an absent child.
#ifndef SIM_NODE_H
#define SIM_NODE_H

#include <functional>
#include <string>
#include <utility>
#include <vector>

#include "../engine/core.h"

struct Node {
    char type = '_';
    std::string name; //< element name; empty: the one of its type
    bool empty = false;
    std::string scalar;
    std::vector<std::pair<std::string, Node> > meta, attrs;
    std::vector<Node> kids;

    bool absent() const
    {
        return type == '_';
    }
    bool container() const
    {
        return type == 'A' || type == 'O' || type == 'X' || type == 'P' || type == 'L';
    }
    std::string text() const;
    void text(std::string& out) const; //< appends
    static Node parse(const std::string&);

    // preorder: self, meta, attributes, children
    void each(const std::function<void(Node&)>& f);
    std::size_t count() const;
    void normalise(); //< as the constructors leave it: one entry per meta and attribute key
};

const char* type_name(char t);
void put_quoted(std::string& out, const std::string& s);

// what a generated tree may look like
struct TreeStyle {
    int budget = 12;       //< elements, about
    int depth = 4;
    bool named = true;     //< user-defined type names
    bool refs = true;
    bool extends = true;
    bool selects = true;
    bool infos = true;     //< meta and attributes
    bool longs = true;     //< some strings beyond the small-string buffer
};
// Most runs are small. Some have many names, many keys, long texts or broad trees: for what begins to matter
// with the ninth or the hundredth of a kind only. Set while a plan is generated, never while it is executed.
struct Spread {
    int names = 0;  //< of types: so many more than the usual
    int keys = 0;   //< of members and of meta data and attributes
    int texts = 0;  //< some are that long
    int bulk = 1;   //< times the usual size of trees
    bool broad = false;
    // Some stay with one place and a few operations: what needs several steps at the same object
    bool focused = false;
    int slot = 0, place = 0, key = 0;
};
extern Spread spread;
struct SpreadScope {
    explicit SpreadScope(sim::Rng&);
    ~SpreadScope()
    {
        spread = Spread();
    }
};
constexpr int MostNames = 80;
std::string extra_name(int);

Node random_tree(sim::Rng&, TreeStyle, char root = 0);
Node random_mergeable(sim::Rng&, TreeStyle); //< an extend element whose parts can be merged
std::string random_text(sim::Rng&, bool longs = true);
std::string random_key(sim::Rng&);
std::string random_type(sim::Rng&);

#endif

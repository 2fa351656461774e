// The catalogue of operations on the code under test that the workloads draw from.
#ifndef SIM_OPS_H
#define SIM_OPS_H

#include <map>
#include <memory>
#include <string>
#include <vector>

#include "ByteBuffer.h"
#include "MarkdownNode.h"
#include "SourceAnnotation.h"
#include "refract/Registry.h"

#include "../engine/core.h"
#include "../engine/seams.h"
#include "tree.h"

constexpr int Slots = 6;

// what operations work on
struct World {
    std::unique_ptr<refract::IElement> slot[Slots];
    std::unique_ptr<refract::Registry> reg;
    std::unique_ptr<mdp::MarkdownNode> md[2];
    mdp::BytesRangeSet ranges[2];
    snowcrash::Report report[2];
};

// a Markdown node as a plain value
struct MdNode {
    int type = 0;
    std::string text;
    int data = 0;
    std::vector<std::pair<std::size_t, std::size_t> > map;
    std::vector<MdNode> kids;
    bool there = false; //< of a root: there is a tree
};

// the same, as plain values
struct Model {
    MdNode md[2];
    std::vector<std::pair<std::size_t, std::size_t> > ranges[2];
    Node slot[Slots];
    std::map<std::string, Node> reg;
};
Model initial_model();
void set_up(World&, const sim::Plan&);
std::string dump(const World&);
std::string dump(const Model&);
// the part of `dump` that belongs to element trees and the registry is everything

struct Args {
    const sim::Line* l;
    std::size_t skip;
    std::int64_t n(std::size_t i) const
    {
        return l->num(i + skip);
    }
    std::string s(std::size_t i) const
    {
        return sim::unquote(l->str(i + skip));
    }
    const std::string& raw(std::size_t i) const
    {
        return l->str(i + skip);
    }
    Node tree(std::size_t i) const
    {
        Node x = Node::parse(sim::unquote(l->str(i + skip)));
        return x;
    }
};

enum OpFlags {
    Reads = 1,     //< changes nothing in the world: may run on a shared one
    Edits = 2,     //< changes trees or the registry, all or nothing
    Text = 4,      //< does not touch trees
    Basic = 8,     //< changes, but promises only a valid state when it fails
    Stderr = 16,   //< writes to a stream of the process: not for threads
    RegOp = 32,    //< touches the registry
    LogOp = 64,    //< may write to the log
    Cancels = 128, //< gives up in the middle, by an exception from a callback
};

struct Op {
    const char* name;
    unsigned flags;
    int weight;
    // arguments after the name
    void (*gen)(sim::Rng&, sim::Line&);
    // performs it; the outcome as text; throws what the code under test throws
    std::string (*run)(World&, const Args&);
    // what must come of it, and the new state; null: no model, the outcome is compared with the
    // undisturbed run's and the state re-read
    bool (*model)(Model&, const Args&, std::string& outcome);
};
const std::vector<Op>& ops();
const Op* find_op(const std::string& name);
const Op& pick_op(sim::Rng&, unsigned with, unsigned without = 0);

// Performs the operation of a plan line (kind "op": id thread name args...). Exceptions that are part
// of the interface become part of the outcome; std::bad_alloc passes.
std::string perform(World&, const Op&, const Args&);

// the reports that the operations `report` and `reportel` print, by seed
struct PlainNote {
    int code = 0;
    std::string message;
    std::vector<std::pair<std::size_t, std::size_t> > location;
};
struct PlainReport {
    PlainNote error;
    std::vector<PlainNote> warnings;
};
PlainReport plain_report(std::int64_t seed);
snowcrash::Report report_of(std::int64_t seed); // the same, put together by the operations of reports
Node parse_result_node(std::int64_t seed);
std::string source_of(std::int64_t seed);

#endif

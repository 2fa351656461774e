// What reading, merging and expanding must give, worked out on the value model alone.
#ifndef SIM_ORACLE_H
#define SIM_ORACLE_H

#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "node.h"

namespace oracle
{
    struct Logic { //< the caller is told that this cannot be done
        std::string what;
    };
    struct Circular {
        std::string what;
    };
    struct Unknown { //< not told by the model
    };

    bool reserved(const std::string&);
    std::string element(const Node&);
    const Node* info(const std::vector<std::pair<std::string, Node> >&, const std::string& key);
    void set_info(std::vector<std::pair<std::string, Node> >&, const std::string& key, const Node&);

    // kind, value, meta data and attributes
    bool same(const Node&, const Node&);
    // name as well; meta data and attributes in any order, but for those ignored. Throws Unknown.
    bool same_document(const Node&, const Node&, const std::set<std::string>& ignored_attributes,
        const std::set<std::string>& ignored_meta);

    // preorder, into containers and members
    std::vector<const Node*> recursive(const Node&);
    std::vector<const Node*> children(const Node&);

    bool type_attribute(const Node&, const std::string&);
    std::string key(const Node& member);
    bool compares(const Node&, const std::string&);
    const Node* member_by_key(const Node& object, const std::string&);
    const Node* enum_value(const Node&);
    const Node* string_value(const Node&);
    const Node* value(const Node&); // of an element of any kind that may have samples and a default
    bool literal(const Node&);

    std::string print(const Node&, int indent);

    Node merge(const Node& extend); // throws Logic

    bool expandable(const Node&);
    using Types = std::map<std::string, Node>;
    // absent: there is nothing to expand
    Node expand(const Node&, const Types&); // throws Circular, Unknown
    void object_push(Node& object, const Node& kid);

    // lines and columns of well-formed text, by a plain count from the beginning
    struct Lines {
        std::vector<std::size_t> starts; //< first character of each line
        std::size_t characters = 0;
        explicit Lines(const std::string& text);
        struct Place {
            std::size_t from_line = 0, from_column = 0, to_line = 0, to_column = 0;
        };
        Place place(std::size_t location, std::size_t length) const;
    };
    std::string place(const Lines&, std::size_t location, std::size_t length);
    // what the command line tool says about a parse result
    std::string report_text(const Node& result, const std::string& source, bool lines, int error);
}
#endif

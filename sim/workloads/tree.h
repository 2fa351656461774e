// Between the value model and the elements of the code under test.
#ifndef SIM_TREE_H
#define SIM_TREE_H

#include <memory>

#include "refract/Element.h"
#include "refract/ElementIfc.h"

#include "node.h"

// builds through the public constructors and mutators
std::unique_ptr<refract::IElement> build(const Node&);
// reads through the public accessors
// the text of read(e), without making it first
void text_of(const refract::IElement* e, std::string& out);
Node read(const refract::IElement*);

// elements of a tree in the order of Node::each
void collect(refract::IElement&, std::vector<refract::IElement*>&);
void collect(const refract::IElement&, std::vector<const refract::IElement*>&);

#endif

#include "ops.h"
#include "oracle.h"

#include <regex.h>

#include <algorithm>
#include <deque>
#include <sstream>

#include <apib/syntax/MediaType.h>

// (in this order: the operator has to be there before the template)
#include "backend/MediaTypeS11n.h"
#include "backend/Backend.h"
#include "drafter.h"
#include "options.h"
#include "reporting.h"
#include "ElementComparator.h"
#include "RegexMatch.h"
#include "Section.h"
#include "SerializeKey.h"
#include "SourceMapUtils.h"
#include "refract/ComparableVisitor.h"
#include "refract/Exception.h"
#include "refract/ExpandVisitor.h"
#include "refract/FilterVisitor.h"
#include "refract/InfoElementsUtils.h"
#include "refract/IsExpandableVisitor.h"
#include "refract/Iterate.h"
#include "refract/PrintVisitor.h"
#include "refract/Query.h"
#include "refract/TypeQueryVisitor.h"
#include "refract/Utils.h"
#include "refract/VisitorUtils.h"
#include "utils/Utf8.h"
#include "utils/log/Trivial.h"

// defined in a file that cannot be built here
const int snowcrash::SourceAnnotation::OK = 0;

using namespace refract;
using sim::HarnessScope;
using sim::Line;
using sim::Rng;
using sim::S;

namespace
{
    // ---------------------------------------------------------------- helpers
    std::string T(const IElement* e)
    {
        HarnessScope h;
        return read(e).text();
    }
    std::string T(std::int64_t n)
    {
        HarnessScope h;
        return std::to_string(n);
    }
    std::string Q(const std::string& s)
    {
        HarnessScope h;
        return sim::quote(s);
    }
    bool none(std::string& o)
    {
        o = "skip";
        return true;
    }
    // the outcome of an operation that found nothing to work on
    std::string skip()
    {
        HarnessScope h;
        return "skip";
    }

    const int c_sinkbroke = sim::counter("fault.sink-broke");
    const int c_cbthrew = sim::counter("fault.callback-threw");

    // a stream that keeps what it is given, outside of the fault-injected heap
    struct Sink : std::streambuf {
        std::string text;
        std::size_t limit = ~std::size_t(0); //< the sink fails beyond that
        bool throws = false;
        bool recovers = false; //< it fails once, and takes what comes later
        bool broke = false;
        struct Broken {
        };
        std::streamsize xsputn(const char* s, std::streamsize n) override
        {
            HarnessScope h;
            if (broke && recovers) {
                text.append(s, static_cast<std::size_t>(n));
                return n;
            }
            std::size_t room = limit - std::min(limit, text.size());
            std::size_t k = std::min(room, static_cast<std::size_t>(n));
            text.append(s, k);
            if (k < static_cast<std::size_t>(n)) {
                broke = true;
                sim::count(c_sinkbroke);
                if (throws)
                    throw Broken();
            }
            return static_cast<std::streamsize>(k);
        }
        int_type overflow(int_type c) override
        {
            if (c == traits_type::eof())
                return c;
            char ch = static_cast<char>(c);
            return xsputn(&ch, 1) == 1 ? c : traits_type::eof();
        }
    };

    using Pred = bool (*)(const Node&);
    bool p_any(const Node&)
    {
        return true;
    }
    bool p_meta(const Node& n)
    {
        return !n.meta.empty();
    }
    bool p_attrs(const Node& n)
    {
        return !n.attrs.empty();
    }
    Pred p_infos(std::int64_t which)
    {
        return which % 2 ? p_attrs : p_meta;
    }
    bool p_container(const Node& n)
    {
        return n.container() && !n.empty;
    }
    bool p_object(const Node& n)
    {
        return n.type == 'O' && !n.empty;
    }
    bool p_objectany(const Node& n)
    {
        return n.type == 'O';
    }
    bool p_member(const Node& n)
    {
        return n.type == 'M' && !n.empty;
    }
    bool p_extended_key(const Node& n) // a variable property with a named type, expanded
    {
        return p_member(n) && n.kids.size() == 2 && n.kids[0].type == 'X';
    }
    bool wide_names = false; //< of this run
    const std::vector<std::string>& known_names()
    {
        static const std::vector<std::string> few = { "Alpha", "Beta", "Gamma", "Delta", "A rather long named data structure",
            "Another long named structure", "boolean", "number", "string", "array", "object", "enum", "null" };
        static const std::vector<std::string> many = [] {
            auto v = few;
            for (int i = 0; i < MostNames; ++i)
                v.push_back(extra_name(i));
            return v;
        }();
        return wide_names ? many : few;
    }
    bool p_samples(const Node& n)
    {
        return n.empty && (oracle::info(n.attrs, "samples") || oracle::info(n.attrs, "default"));
    }
    bool p_resolved(const Node& n)
    {
        auto r = oracle::info(n.attrs, "resolved");
        return r && !(r->type == 'X' && r->empty);
    }
    bool p_extend(const Node& n)
    {
        return n.type == 'X' && !n.empty;
    }
    bool p_enum(const Node& n)
    {
        return n.type == 'E';
    }
    bool p_string(const Node& n)
    {
        return n.type == 'S';
    }
    bool p_number(const Node& n)
    {
        return n.type == 'N' && !n.empty;
    }
    bool p_holder(const Node& n)
    {
        return n.type == 'H' && !n.empty;
    }
    bool p_leaf(const Node& n)
    {
        return n.type == 'S' || n.type == 'N' || n.type == 'B' || n.type == 'R';
    }

    bool whole(const Node& root) // may be printed, expanded, ...: no absent parts
    {
        bool ok = true;
        const_cast<Node&>(root).each([&ok](Node& n) {
            if (n.type == 'M' && (n.empty || n.kids.size() < 2 || n.kids[0].absent() || n.kids[1].absent()))
                ok = false;
            if ((n.type == 'E' || n.type == 'H') && !n.empty && (n.kids.empty() || n.kids[0].absent()))
                ok = false;
            if (n.type == 'H' && n.empty)
                ok = false;
            for (const auto& a : n.attrs)
                if (a.first == "enumerations" && (a.second.type != 'A' || a.second.empty))
                    ok = false;
                else if (a.first == "typeAttributes" && (a.second.type != 'A' || a.second.empty))
                    ok = false;
            for (const auto& k : n.kids)
                if (k.absent() && n.type != 'M')
                    ok = false;
            if (n.type == 'L')
                for (const auto& k : n.kids)
                    if (k.type != 'P' || k.empty)
                        ok = false;
        });
        return ok;
    }
    bool printable(const Node& root)
    {
        return whole(root);
    }
    bool key_named(const Node& n)
    {
        return n.type == 'M' && !n.empty && n.kids.size() == 2 && n.kids[0].type == 'S' && !n.kids[0].empty;
    }
    // what merging accepts
    bool merges(const Node& x)
    {
        if (!whole(x))
            return false;
        bool ok = true;
        auto members = [&ok](const Node& o) {
            for (const auto& k : o.kids) {
                if (k.type == 'R' && k.empty)
                    ok = false;
            }
        };
        for (const auto& k : x.kids)
            if (k.type == 'O')
                members(k);
        return ok;
    }
    // ... anywhere below, which is what keys and expansion may reach
    bool all_merge(const Node& root)
    {
        bool ok = whole(root);
        const_cast<Node&>(root).each([&ok](Node& n) {
            if (n.type == 'X' && !merges(n))
                ok = false;
        });
        return ok;
    }

    Node snapshot(const World& w, int s)
    {
        HarnessScope h;
        return read(w.slot[s % Slots].get());
    }

    // the element that the k-th matching node of a slot stands for
    IElement* at(World& w, std::int64_t s, std::int64_t k, Pred p)
    {
        HarnessScope h;
        for (int t = 0; t < Slots; ++t) { // the tree asked for, or else the next that has one
            auto& e = w.slot[(s + t) % Slots];
            if (!e)
                continue;
            Node n = read(e.get());
            std::vector<IElement*> els;
            collect(*e, els);
            std::vector<IElement*> match;
            std::size_t i = 0;
            n.each([&](Node& x) {
                if (p(x))
                    match.push_back(els.at(i));
                ++i;
            });
            if (!match.empty())
                return match[static_cast<std::size_t>(k) % match.size()];
        }
        return nullptr;
    }
    Node* at(Model& m, std::int64_t s, std::int64_t k, Pred p)
    {
        for (int t = 0; t < Slots; ++t) {
            std::vector<Node*> match;
            m.slot[(s + t) % Slots].each([&](Node& x) {
                if (p(x))
                    match.push_back(&x);
            });
            if (!match.empty())
                return match[static_cast<std::size_t>(k) % match.size()];
        }
        return nullptr;
    }
    Node sub(IElement* e)
    {
        HarnessScope h;
        return read(e);
    }
    std::string str(const char* s)
    {
        HarnessScope h;
        return s;
    }

    template <typename E>
    E& as(IElement* e)
    {
        return static_cast<E&>(*e);
    }

    // ---------------------------------------------------------------- argument generation
    std::string slot_arg(Rng& r)
    {
        if (spread.focused && r.chance(2, 3))
            return S(spread.slot);
        return S(r.below(Slots));
    }
    std::string small(Rng& r)
    {
        if (spread.focused && r.chance(2, 3))
            return S(spread.place);
        return S(r.below(24));
    }
    std::string text_arg(Rng& r)
    {
        return sim::quote(random_text(r));
    }
    std::string tree_arg(Rng& r, int budget = 10, char root = 0)
    {
        TreeStyle st;
        st.budget = budget;
        return sim::quote(random_tree(r, st, root).text());
    }
    void gen_slot(Rng& r, Line& l)
    {
        l.args.push_back(slot_arg(r));
    }
    void gen_sk(Rng& r, Line& l)
    {
        l.args.push_back(slot_arg(r));
        l.args.push_back(small(r));
    }
    void gen_sksk(Rng& r, Line& l)
    {
        gen_sk(r, l);
        gen_sk(r, l);
    }
    void gen_skd(Rng& r, Line& l)
    {
        gen_sk(r, l);
        l.args.push_back(slot_arg(r));
    }
    void gen_none(Rng&, Line&) {}

    // ---------------------------------------------------------------- building, copying, destroying
    void gen_build(Rng& r, Line& l)
    {
        l.args.push_back(slot_arg(r));
        if (r.chance(1, 5)) {
            TreeStyle st;
            st.budget = 8;
            l.args.push_back(sim::quote(random_mergeable(r, st).text()));
        } else
            l.args.push_back(tree_arg(r, 24));
    }
    std::string run_build(World& w, const Args& a)
    {
        Node n;
        {
            HarnessScope h;
            n = a.tree(1);
        }
        auto e = build(n);
        w.slot[a.n(0) % Slots] = std::move(e);
        return str("ok");
    }
    bool model_build(Model& m, const Args& a, std::string& o)
    {
        Node n = a.tree(1);
        n.normalise();
        m.slot[a.n(0) % Slots] = n;
        o = "ok";
        return true;
    }

    std::string run_destroy(World& w, const Args& a)
    {
        w.slot[a.n(0) % Slots].reset();
        return str("ok");
    }
    bool model_destroy(Model& m, const Args& a, std::string& o)
    {
        m.slot[a.n(0) % Slots] = Node();
        o = "ok";
        return true;
    }

    void gen_clone(Rng& r, Line& l)
    {
        gen_skd(r, l);
        static const std::vector<int> flags = { IElement::cAll, IElement::cAll, IElement::cAll | IElement::cNoMetaId,
            IElement::cMeta, IElement::cAttributes, IElement::cValue, IElement::cElement,
            IElement::cAll ^ IElement::cValue, IElement::cAll ^ IElement::cElement,
            IElement::cMeta | IElement::cAttributes | IElement::cNoMetaId, 0 };
        l.args.push_back(S(r.pick(flags)));
    }
    std::string run_clone(World& w, const Args& a)
    {
        auto e = at(w, a.n(0), a.n(1), p_any);
        if (!e)
            return skip();
        auto c = e->clone(static_cast<int>(a.n(3)));
        w.slot[a.n(2) % Slots] = std::move(c);
        return str("ok");
    }
    Node model_cloned(const Node& x, int f)
    {
        Node c;
        c.type = x.type;
        c.empty = true;
        if (f & IElement::cElement)
            c.name = x.name;
        if (f & IElement::cAttributes)
            c.attrs = x.attrs;
        if (f & IElement::cMeta)
            for (const auto& k : x.meta)
                if (!((f & IElement::cNoMetaId) && k.first == "id"))
                    c.meta.push_back(k);
        if (f & IElement::cValue) {
            c.empty = x.empty;
            c.scalar = x.scalar;
            c.kids = x.kids;
        }
        return c;
    }
    bool model_clone(Model& m, const Args& a, std::string& o)
    {
        auto e = at(m, a.n(0), a.n(1), p_any);
        if (!e) {
            o = "skip";
            return true;
        }
        Node c = model_cloned(*e, static_cast<int>(a.n(3)));
        m.slot[a.n(2) % Slots] = c;
        o = "ok";
        return true;
    }

    std::string run_swap(World& w, const Args& a)
    {
        std::swap(w.slot[a.n(0) % Slots], w.slot[a.n(1) % Slots]);
        return str("ok");
    }
    bool model_swap(Model& m, const Args& a, std::string& o)
    {
        std::swap(m.slot[a.n(0) % Slots], m.slot[a.n(1) % Slots]);
        o = "ok";
        return true;
    }

    // assignment of one element to another of the same type
    struct CopyData {
        IElement* to;
        template <typename E>
        void operator()(const E& from) const
        {
            static_cast<E&>(*to) = from;
        }
    };
    std::string run_assign(World& w, const Args& a)
    {
        auto from = at(w, a.n(0), a.n(1), p_any);
        IElement* to = nullptr;
        {
            HarnessScope h;
            auto& t = w.slot[a.n(2) % Slots];
            to = t.get();
            if (from && to && (a.n(0) % Slots == a.n(2) % Slots || read(from).type != read(to).type))
                to = nullptr;
        }
        if (!from || !to)
            return skip();
        visit(*from, CopyData{ to });
        return str("ok");
    }
    bool model_assign(Model& m, const Args& a, std::string& o)
    {
        auto from = at(m, a.n(0), a.n(1), p_any);
        auto& t = m.slot[a.n(2) % Slots];
        if (!from || t.absent() || a.n(0) % Slots == a.n(2) % Slots || from->type != t.type) {
            o = "skip";
            return true;
        }
        const Node c = *from; // which may be a part of it
        t = c;
        o = "ok";
        return true;
    }

    // ---------------------------------------------------------------- children
    char kid_type(Rng& r)
    {
        return r.chance(1, 2) ? 'M' : 0;
    }
    void gen_push(Rng& r, Line& l)
    {
        gen_sk(r, l);
        l.args.push_back(tree_arg(r, 8, kid_type(r)));
        l.args.push_back(S(r.below(6)));
    }
    // what fits into a container
    Node fitted(const Node& n, char container)
    {
        if (container == 'L' && n.type != 'P') {
            Node p;
            p.type = 'P';
            p.kids.push_back(n);
            return p;
        }
        return n;
    }
    std::string run_push(World& w, const Args& a)
    {
        auto c = at(w, a.n(0), a.n(1), p_container);
        if (!c)
            return skip();
        char t;
        Node n;
        {
            HarnessScope h;
            t = read(c).type;
            n = fitted(a.tree(2), t);
        }
        auto k = build(n);
        switch (t) {
            case 'A':
                as<ArrayElement>(c).get().push_back(std::move(k));
                break;
            case 'O':
                as<ObjectElement>(c).get().push_back(std::move(k));
                break;
            case 'X':
                as<ExtendElement>(c).get().push_back(std::move(k));
                break;
            case 'P':
                as<OptionElement>(c).get().push_back(std::move(k));
                break;
            case 'L':
                as<SelectElement>(c).get().push_back(
                    std::unique_ptr<OptionElement>(static_cast<OptionElement*>(k.release())));
                break;
        }
        return str("ok");
    }
    void drop_key(Node& o, const std::string& key)
    {
        for (auto it = o.kids.begin(); it != o.kids.end(); ++it)
            if (key_named(*it) && it->kids[0].scalar == key) {
                o.kids.erase(it);
                return;
            }
    }
    bool model_push(Model& m, const Args& a, std::string& o)
    {
        auto c = at(m, a.n(0), a.n(1), p_container);
        if (!c) {
            o = "skip";
            return true;
        }
        Node n = fitted(a.tree(2), c->type);
        n.normalise();
        if (c->type == 'O' && key_named(n))
            drop_key(*c, n.kids[0].scalar);
        c->kids.push_back(n);
        o = "ok";
        return true;
    }

    template <typename E>
    void insert_at(IElement* c, std::size_t pos, std::unique_ptr<IElement> k)
    {
        auto& d = as<E>(c).get();
        d.insert(d.begin() + static_cast<std::ptrdiff_t>(pos % (d.size() + 1)), std::move(k));
    }
    // deep trees: what is there, within so many lists and objects
    void gen_nest(Rng& r, Line& l)
    {
        gen_slot(r, l);
        l.args.push_back(S(1 + r.below(r.chance(1, 4) ? 90 : 8)));
        l.args.push_back(S(r.below(1000)));
    }
    constexpr std::size_t MostNodes = 600;
    bool nests(const Node& n, const Args& a)
    {
        return !n.absent() && n.count() + 3 * static_cast<std::size_t>(a.n(1)) < MostNodes / 2;
    }
    std::string run_nest(World& w, const Args& a)
    {
        auto& slot = w.slot[a.n(0) % Slots];
        {
            HarnessScope h;
            if (!slot || !nests(read(slot.get()), a))
                return skip();
        }
        auto e = slot->clone();
        for (std::int64_t i = 0; i < a.n(1); ++i)
            if ((a.n(2) >> (i % 9)) & 1)
                e = make_element<ArrayElement>(std::move(e));
            else
                e = make_element<ObjectElement>(make_element<MemberElement>("k", std::move(e)));
        slot = std::move(e);
        return str("ok");
    }
    bool model_nest(Model& m, const Args& a, std::string& o)
    {
        auto& slot = m.slot[a.n(0) % Slots];
        o = "skip";
        if (!nests(slot, a))
            return true;
        for (std::int64_t i = 0; i < a.n(1); ++i) {
            Node n;
            if ((a.n(2) >> (i % 9)) & 1) {
                n.type = 'A';
                n.kids.push_back(slot);
            } else {
                Node k, x;
                k.type = 'S';
                k.scalar = "k";
                x.type = 'M';
                x.kids = { k, slot };
                n.type = 'O';
                n.kids.push_back(x);
            }
            slot = n;
        }
        o = "ok";
        return true;
    }
    // broad trees: so many copies of an element within a list
    void gen_many(Rng& r, Line& l)
    {
        gen_sk(r, l);
        l.args.push_back(tree_arg(r, 3, r.chance(1, 2) ? 'S' : 0));
        l.args.push_back(S(1 + r.below(r.chance(1, 4) ? 140 : 20)));
    }
    bool p_list(const Node& n)
    {
        return n.type == 'A' && !n.empty;
    }
    std::string run_many(World& w, const Args& a)
    {
        auto c = at(w, a.n(0), a.n(1), p_list);
        if (!c)
            return skip();
        Node n;
        {
            HarnessScope h;
            n = a.tree(2);
            if ((n.count() + 1) * static_cast<std::size_t>(a.n(3)) + read(c).count() > MostNodes)
                return skip();
        }
        auto k = build(n);
        dsd::Array more(as<ArrayElement>(c).get());
        for (std::int64_t i = 0; i < a.n(3); ++i)
            more.push_back(k->clone());
        as<ArrayElement>(c).get() = std::move(more);
        return str("ok");
    }
    bool model_many(Model& m, const Args& a, std::string& o)
    {
        auto c = at(m, a.n(0), a.n(1), p_list);
        o = "skip";
        if (!c)
            return true;
        Node n = a.tree(2);
        if ((n.count() + 1) * static_cast<std::size_t>(a.n(3)) + c->count() > MostNodes)
            return true;
        n.normalise();
        for (std::int64_t i = 0; i < a.n(3); ++i)
            c->kids.push_back(n);
        o = "ok";
        return true;
    }
    std::string run_insert(World& w, const Args& a)
    {
        auto c = at(w, a.n(0), a.n(1), p_container);
        if (!c)
            return skip();
        char t;
        Node n;
        {
            HarnessScope h;
            t = read(c).type;
            n = fitted(a.tree(2), t);
        }
        auto k = build(n);
        const auto pos = static_cast<std::size_t>(a.n(3));
        switch (t) {
            case 'A':
                insert_at<ArrayElement>(c, pos, std::move(k));
                break;
            case 'O':
                insert_at<ObjectElement>(c, pos, std::move(k));
                break;
            case 'X':
                insert_at<ExtendElement>(c, pos, std::move(k));
                break;
            case 'P':
                insert_at<OptionElement>(c, pos, std::move(k));
                break;
            case 'L': {
                auto& d = as<SelectElement>(c).get();
                d.insert(d.begin() + static_cast<std::ptrdiff_t>(pos % (d.size() + 1)),
                    std::unique_ptr<OptionElement>(static_cast<OptionElement*>(k.release())));
                break;
            }
        }
        return str("ok");
    }
    bool model_insert(Model& m, const Args& a, std::string& o)
    {
        auto c = at(m, a.n(0), a.n(1), p_container);
        if (!c) {
            o = "skip";
            return true;
        }
        Node n = fitted(a.tree(2), c->type);
        n.normalise();
        c->kids.insert(c->kids.begin() + static_cast<std::ptrdiff_t>(static_cast<std::size_t>(a.n(3)) % (c->kids.size() + 1)), n);
        o = "ok";
        return true;
    }

    void gen_erase(Rng& r, Line& l)
    {
        gen_sk(r, l);
        l.args.push_back(S(r.below(6)));
        l.args.push_back(S(r.below(4)));
    }
    template <typename E>
    void erase_in(IElement* c, std::size_t pos, std::size_t len)
    {
        auto& d = as<E>(c).get();
        if (d.empty())
            return;
        pos %= d.size();
        if (len == 1) {
            d.erase(d.begin() + static_cast<std::ptrdiff_t>(pos));
            return;
        }
        if (len == 3) {
            d.clear();
            return;
        }
        const auto e = std::min(pos + len, static_cast<std::size_t>(d.size()));
        d.erase(d.begin() + static_cast<std::ptrdiff_t>(pos), d.begin() + static_cast<std::ptrdiff_t>(e));
    }
    std::string run_erase(World& w, const Args& a)
    {
        auto c = at(w, a.n(0), a.n(1), p_container);
        if (!c)
            return skip();
        char t;
        {
            HarnessScope h;
            t = read(c).type;
        }
        const auto pos = static_cast<std::size_t>(a.n(2)), len = static_cast<std::size_t>(a.n(3));
        switch (t) {
            case 'A':
                erase_in<ArrayElement>(c, pos, len);
                break;
            case 'O':
                erase_in<ObjectElement>(c, pos, len);
                break;
            case 'X':
                erase_in<ExtendElement>(c, pos, len);
                break;
            case 'P':
                erase_in<OptionElement>(c, pos, len);
                break;
            case 'L':
                erase_in<SelectElement>(c, pos, len);
                break;
        }
        return str("ok");
    }
    bool model_erase(Model& m, const Args& a, std::string& o)
    {
        auto c = at(m, a.n(0), a.n(1), p_container);
        if (!c) {
            o = "skip";
            return true;
        }
        o = "ok";
        if (c->kids.empty())
            return true;
        auto pos = static_cast<std::size_t>(a.n(2)) % c->kids.size(), len = static_cast<std::size_t>(a.n(3));
        if (len == 3) {
            c->kids.clear();
            return true;
        }
        const auto e = std::min(pos + len, c->kids.size());
        c->kids.erase(c->kids.begin() + static_cast<std::ptrdiff_t>(pos), c->kids.begin() + static_cast<std::ptrdiff_t>(e));
        return true;
    }

    void gen_addmember(Rng& r, Line& l)
    {
        gen_sk(r, l);
        l.args.push_back(sim::quote(random_key(r)));
        l.args.push_back(tree_arg(r, 6));
    }
    std::string run_addmember(World& w, const Args& a)
    {
        auto c = at(w, a.n(0), a.n(1), p_object);
        if (!c)
            return skip();
        Node n;
        std::string key;
        {
            HarnessScope h;
            n = a.tree(3);
            key = a.s(2);
        }
        as<ObjectElement>(c).get().addMember(key, build(n));
        return str("ok");
    }
    bool model_addmember(Model& m, const Args& a, std::string& o)
    {
        auto c = at(m, a.n(0), a.n(1), p_object);
        if (!c) {
            o = "skip";
            return true;
        }
        Node mb, k, v = a.tree(3);
        v.normalise();
        mb.type = 'M';
        k.type = 'S';
        k.scalar = a.s(2);
        mb.kids = { k, v };
        drop_key(*c, a.s(2));
        c->kids.push_back(mb);
        o = "ok";
        return true;
    }
    void gen_find(Rng& r, Line& l)
    {
        gen_sk(r, l);
        l.args.push_back(sim::quote(random_key(r)));
    }
    std::string run_find(World& w, const Args& a)
    {
        auto c = at(w, a.n(0), a.n(1), p_object);
        if (!c)
            return skip();
        std::string key;
        {
            HarnessScope h;
            key = a.s(2);
        }
        auto& d = as<ObjectElement>(c).get();
        auto it = d.find(key);
        return T(it == d.end() ? -1 : it - d.begin());
    }
    bool model_find(Model& m, const Args& a, std::string& o)
    {
        auto c = at(m, a.n(0), a.n(1), p_object);
        if (!c) {
            o = "skip";
            return true;
        }
        o = "-1";
        for (std::size_t i = 0; i < c->kids.size(); ++i)
            if (key_named(c->kids[i]) && c->kids[i].kids[0].scalar == a.s(2)) {
                o = std::to_string(i);
                break;
            }
        return true;
    }

    // ---------------------------------------------------------------- values and names
    void gen_skt(Rng& r, Line& l)
    {
        gen_sk(r, l);
        l.args.push_back(text_arg(r));
    }
    std::string run_set(World& w, const Args& a)
    {
        auto e = at(w, a.n(0), a.n(1), p_any);
        if (!e)
            return skip();
        char t;
        std::string v;
        {
            HarnessScope h;
            t = read(e).type;
            v = a.s(2);
        }
        switch (t) {
            case 'S':
                as<StringElement>(e).set(v);
                break;
            case 'N':
                as<NumberElement>(e).set(dsd::Number(std::move(v)));
                break;
            case 'B':
                as<BooleanElement>(e).set(dsd::Boolean(!v.empty()));
                break;
            case 'R':
                as<RefElement>(e).set(dsd::Ref(v));
                break;
            case 'A':
                as<ArrayElement>(e).set();
                break;
            case 'O':
                as<ObjectElement>(e).set();
                break;
            case 'X':
                as<ExtendElement>(e).set();
                break;
            default:
                return skip();
        }
        return str("ok");
    }
    bool model_set(Model& m, const Args& a, std::string& o)
    {
        auto e = at(m, a.n(0), a.n(1), p_any);
        o = "skip";
        if (!e)
            return true;
        switch (e->type) {
            case 'S':
            case 'N':
            case 'R':
                e->scalar = a.s(2);
                break;
            case 'B':
                e->scalar = a.s(2).empty() ? "0" : "1";
                break;
            case 'A':
            case 'O':
            case 'X':
                e->kids.clear();
                break;
            default:
                return true;
        }
        e->empty = false;
        o = "ok";
        return true;
    }
    void gen_name(Rng& r, Line& l)
    {
        gen_sk(r, l);
        l.args.push_back(sim::quote(r.chance(2, 3) ? random_type(r) : std::string("annotation")));
    }
    std::string run_name(World& w, const Args& a)
    {
        auto e = at(w, a.n(0), a.n(1), p_any);
        if (!e)
            return skip();
        std::string v;
        {
            HarnessScope h;
            v = a.s(2);
        }
        e->element(v);
        return str("ok");
    }
    bool model_name(Model& m, const Args& a, std::string& o)
    {
        auto e = at(m, a.n(0), a.n(1), p_any);
        o = e ? "ok" : "skip";
        if (e)
            e->name = a.s(2);
        return true;
    }
    std::string run_mvalue(World& w, const Args& a)
    {
        auto e = at(w, a.n(0), a.n(1), p_member);
        if (!e)
            return skip();
        Node n;
        {
            HarnessScope h;
            n = a.tree(2);
        }
        as<MemberElement>(e).get().value(build(n));
        return str("ok");
    }
    bool model_mvalue(Model& m, const Args& a, std::string& o)
    {
        auto e = at(m, a.n(0), a.n(1), p_member);
        o = e ? "ok" : "skip";
        if (e) {
            Node n = a.tree(2);
            n.normalise();
            e->kids[1] = n;
        }
        return true;
    }
    void gen_skn(Rng& r, Line& l)
    {
        gen_sk(r, l);
        l.args.push_back(tree_arg(r, 6));
    }
    std::string run_mclaim(World& w, const Args& a)
    {
        auto e = at(w, a.n(0), a.n(1), p_member);
        if (!e || a.n(0) % Slots == a.n(2) % Slots)
            return skip();
        auto v = as<MemberElement>(e).get().claim();
        w.slot[a.n(2) % Slots] = std::move(v);
        return str("ok");
    }
    bool model_mclaim(Model& m, const Args& a, std::string& o)
    {
        auto e = at(m, a.n(0), a.n(1), p_member);
        o = "skip";
        if (!e || a.n(0) % Slots == a.n(2) % Slots)
            return true;
        Node v = e->kids[1];
        e->kids[1] = Node();
        m.slot[a.n(2) % Slots] = v;
        o = "ok";
        return true;
    }

    // ---------------------------------------------------------------- meta and attributes
    std::string info_key(Rng& r)
    {
        static const std::vector<std::string> k = { "id", "description", "title", "default", "a-rather-long-attribute-key",
            "variable", "code", "prefix", "namespace", "samples" };
        if (spread.focused && r.chance(3, 4))
            return sim::quote(k[static_cast<std::size_t>(spread.key) % k.size()]);
        return sim::quote(r.pick(k));
    }
    InfoElements& infos(IElement* e, std::int64_t which)
    {
        return which % 2 ? e->attributes() : e->meta();
    }
    std::vector<std::pair<std::string, Node> >& infos(Node& e, std::int64_t which)
    {
        return which % 2 ? e.attrs : e.meta;
    }
    std::string which_arg(Rng& r) // meta data or attributes
    {
        return S(spread.focused && r.chance(3, 4) ? spread.key / 32 : r.below(2));
    }
    void gen_iset(Rng& r, Line& l)
    {
        gen_sk(r, l);
        l.args.push_back(which_arg(r));
        l.args.push_back(info_key(r));
        l.args.push_back(tree_arg(r, 4, r.chance(1, 2) ? 'S' : 0));
        l.args.push_back(S(r.below(2)));
    }
    std::string run_iset(World& w, const Args& a)
    {
        auto e = at(w, a.n(0), a.n(1), p_any);
        if (!e)
            return skip();
        Node n;
        std::string k;
        {
            HarnessScope h;
            n = a.tree(4);
            k = a.s(3);
        }
        auto v = build(n);
        if (a.n(5) % 2)
            infos(e, a.n(2)).set(k, *v); // clones
        else
            infos(e, a.n(2)).set(k, std::move(v));
        return str("ok");
    }
    bool model_iset(Model& m, const Args& a, std::string& o)
    {
        auto e = at(m, a.n(0), a.n(1), p_any);
        o = e ? "ok" : "skip";
        if (!e)
            return true;
        Node n = a.tree(4);
        n.normalise();
        auto& v = infos(*e, a.n(2));
        for (auto& p : v)
            if (p.first == a.s(3)) {
                p.second = n;
                return true;
            }
        v.emplace_back(a.s(3), n);
        return true;
    }
    void gen_ikey(Rng& r, Line& l)
    {
        gen_sk(r, l);
        l.args.push_back(which_arg(r));
        l.args.push_back(info_key(r));
        l.args.push_back(slot_arg(r));
        l.args.push_back(S(r.below(60))); // which of those that are there; or the key above
    }
    template <typename I>
    std::string chosen_key(const I& infos, const Args& a)
    {
        HarnessScope h;
        const auto n = a.n(5);
        if (n % 5 == 0 || infos.begin() == infos.end())
            return a.s(3);
        auto it = infos.begin();
        std::advance(it, (n / 5) % std::distance(infos.begin(), infos.end()));
        return it->first;
    }
    std::string run_ierase(World& w, const Args& a)
    {
        auto e = at(w, a.n(0), a.n(1), p_infos(a.n(2)));
        if (!e)
            return skip();
        auto& v = infos(e, a.n(2));
        const std::string k = chosen_key(v, a);
        if (a.n(5) % 2) {
            auto it = v.find(k);
            if (it != v.end())
                v.erase(it);
        } else
            v.erase(k);
        return str("ok");
    }
    bool model_ierase(Model& m, const Args& a, std::string& o)
    {
        auto e = at(m, a.n(0), a.n(1), p_infos(a.n(2)));
        o = e ? "ok" : "skip";
        if (!e)
            return true;
        auto& v = infos(*e, a.n(2));
        const std::string k = chosen_key(v, a);
        for (std::size_t i = 0; i < v.size();)
            if (v[i].first == k) {
                v.erase(v.begin() + static_cast<std::ptrdiff_t>(i));
                if (a.n(5) % 2) // that entry, and no other of its name
                    return true;
            } else
                ++i;
        return true;
    }
    std::string run_iclaim(World& w, const Args& a)
    {
        auto e = at(w, a.n(0), a.n(1), p_infos(a.n(2)));
        if (!e || a.n(0) % Slots == a.n(4) % Slots)
            return skip();
        const std::string k = chosen_key(infos(e, a.n(2)), a);
        std::unique_ptr<IElement> v;
        auto& from = infos(e, a.n(2));
        if (a.n(5) % 2) {
            auto it = from.find(k);
            if (it != from.end())
                v = from.claim(it);
        } else
            v = from.claim(k);
        HarnessScope h;
        std::string o = v ? "claimed" : "none";
        if (v)
            w.slot[a.n(4) % Slots] = std::move(v);
        return o;
    }
    bool model_iclaim(Model& m, const Args& a, std::string& o)
    {
        auto e = at(m, a.n(0), a.n(1), p_infos(a.n(2)));
        o = "skip";
        if (!e || a.n(0) % Slots == a.n(4) % Slots)
            return true;
        auto& v = infos(*e, a.n(2));
        const std::string k = chosen_key(v, a);
        for (std::size_t i = 0; i < v.size(); ++i)
            if (v[i].first == k) {
                Node n = v[i].second;
                v.erase(v.begin() + static_cast<std::ptrdiff_t>(i));
                m.slot[a.n(4) % Slots] = n;
                o = "claimed";
                return true;
            }
        o = "none";
        return true;
    }
    std::string run_iclear(World& w, const Args& a)
    {
        auto e = at(w, a.n(0), a.n(1), p_any);
        if (!e)
            return skip();
        infos(e, a.n(2)).clear();
        return T(static_cast<std::int64_t>(infos(e, a.n(2)).size()));
    }
    bool model_iclear(Model& m, const Args& a, std::string& o)
    {
        auto e = at(m, a.n(0), a.n(1), p_any);
        o = e ? "0" : "skip";
        if (e)
            infos(*e, a.n(2)).clear();
        return true;
    }
    void gen_icopy(Rng& r, Line& l)
    {
        // between two of them
        const auto s = r.below(Slots);
        l.args.push_back(S(s));
        l.args.push_back(small(r));
        l.args.push_back(spread.focused && static_cast<int>(s) != spread.slot ? S(spread.slot)
                                                                              : S((s + 1 + r.below(Slots - 1)) % Slots));
        l.args.push_back(small(r));
        l.args.push_back(which_arg(r));
        l.args.push_back(S(r.below(2)));
    }
    // assignment of whole info sets (0), or appending clones (1)
    std::string run_icopy(World& w, const Args& a)
    {
        auto e = at(w, a.n(0), a.n(1), p_any), f = at(w, a.n(2), a.n(3), p_any);
        if (!e || !f || e == f || a.n(0) % Slots == a.n(2) % Slots)
            return skip();
        if (a.n(5) % 2)
            infos(e, a.n(4)).clone(infos(f, a.n(4)));
        else
            infos(e, a.n(4)) = infos(f, a.n(4));
        return str("ok");
    }
    bool model_icopy(Model& m, const Args& a, std::string& o)
    {
        auto e = at(m, a.n(0), a.n(1), p_any), f = at(m, a.n(2), a.n(3), p_any);
        o = "skip";
        if (!e || !f || e == f || a.n(0) % Slots == a.n(2) % Slots)
            return true;
        const auto from = infos(*f, a.n(4));
        auto& to = infos(*e, a.n(4));
        if (!(a.n(5) % 2))
            to.clear();
        to.insert(to.end(), from.begin(), from.end());
        o = "ok";
        return true;
    }
    void gen_append(Rng& r, Line& l)
    {
        gen_sk(r, l);
        l.args.push_back(text_arg(r));
    }
    std::string run_append(World& w, const Args& a)
    {
        auto e = at(w, a.n(0), a.n(1), p_any);
        if (!e)
            return skip();
        std::string v;
        {
            HarnessScope h;
            v = a.s(2);
            Node n = read(e);
            for (const auto& p : n.attrs)
                if (p.first == "typeAttributes" && p.second.type != 'A')
                    return skip();
        }
        AppendInfoElement<ArrayElement>(e->attributes(), "typeAttributes", dsd::String{ v });
        return str("ok");
    }

    // ---------------------------------------------------------------- merging and expanding
    std::string run_mergeto(World& w, const Args& a)
    {
        auto e = at(w, a.n(0), a.n(1), p_extend);
        if (!e || !merges(sub(e)))
            return skip();
        auto r = as<ExtendElement>(e).get().merge();
        w.slot[a.n(2) % Slots] = std::move(r);
        return str("ok");
    }
    std::string run_merge(World& w, const Args& a)
    {
        auto e = at(w, a.n(0), a.n(1), p_extend);
        if (!e || !merges(sub(e)))
            return skip();
        auto r = as<ExtendElement>(e).get().merge();
        return T(r.get());
    }
    bool expandable(const World& w, IElement* e)
    {
        HarnessScope h;
        if (!w.reg || !whole(read(e)))
            return false;
        for (const auto& t : known_names())
            if (auto x = w.reg->find(t))
                if (!whole(read(x)))
                    return false;
        return true;
    }
    std::unique_ptr<IElement> expanded(const World& w, const IElement& e, bool direct)
    {
        ExpandVisitor v(*w.reg);
        if (direct)
            refract::Visit(v, e); // finds out itself what it is
        else
            VisitBy(e, v);
        return v.get();
    }
    std::string run_expandto(World& w, const Args& a)
    {
        auto e = at(w, a.n(0), a.n(1), p_any);
        if (!e || !expandable(w, e))
            return skip();
        auto r = expanded(w, *e, a.n(1) % 2 != 0);
        HarnessScope h;
        std::string o = r ? "ok" : "none";
        if (r)
            w.slot[a.n(2) % Slots] = std::move(r);
        return o;
    }
    std::string run_expand(World& w, const Args& a)
    {
        auto e = at(w, a.n(0), a.n(1), p_any);
        if (!e || !expandable(w, e))
            return skip();
        auto r = expanded(w, *e, a.n(1) % 2 != 0);
        return T(r.get());
    }
    // one visitor, used several times: an attempt that failed must not change what the next one gives
    std::string run_expandtwice(World& w, const Args& a)
    {
        auto e = at(w, a.n(0), a.n(1), p_any), f = at(w, a.n(2), a.n(3), p_any);
        if (!e || !f || !expandable(w, e) || !expandable(w, f))
            return skip();
        ExpandVisitor v(*w.reg);
        std::string o;
        bool failed = false;
        try {
            VisitBy(*e, v);
            auto r = v.get();
            HarnessScope h;
            o = T(r.get());
        } catch (const snowcrash::Error&) {
            HarnessScope h;
            o = "circular";
        } catch (const std::bad_alloc&) {
            failed = true;
        }
        std::string p;
        VisitBy(*f, v);
        auto r = v.get();
        if (failed)
            r = nullptr;
        {
            HarnessScope h;
            p = T(r.get());
        }
        if (failed) {
            // what the visitor gives now must be what a new one gives
            VisitBy(*f, v);
            auto again = v.get();
            ExpandVisitor fresh(*w.reg);
            VisitBy(*f, fresh);
            auto right = fresh.get();
            HarnessScope h;
            if (T(again.get()) != T(right.get()))
                sim::violate("retry",
                    "expandtwice",
                    "after an expansion that ran out of memory, the same visitor expands\n  " + T(f) + "\nto\n  "
                        + T(again.get()) + "\nand a new one to\n  " + T(right.get()));
        }
        if (failed)
            throw std::bad_alloc();
        HarnessScope h;
        return o + " then " + p;
    }
    std::string run_isexpandable(World& w, const Args& a)
    {
        auto e = at(w, a.n(0), a.n(1), p_any);
        if (!e || !whole(sub(e)))
            return skip();
        IsExpandableVisitor v;
        if (a.n(1) % 2)
            refract::Visit(v, *e);
        else
            VisitBy(*e, v);
        return T(v.get());
    }

    // ---------------------------------------------------------------- the registry
    void gen_regadd(Rng& r, Line& l)
    {
        TreeStyle st;
        st.budget = 8;
        static const char ts[] = "OOOASNE";
        Node n = random_tree(r, st, ts[r.below(7)]);
        n.meta.clear();
        Node id;
        id.type = r.chance(1, 12) ? 'N' : 'S';
        id.scalar = r.chance(1, 12) ? "string" : random_type(r);
        if (!r.chance(1, 12))
            n.meta.emplace_back("id", id);
        if (n.type != 'E')
            n.name = r.chance(1, 2) ? random_type(r) : "";
        l.args.push_back(sim::quote(n.text()));
    }
    std::string run_regadd(World& w, const Args& a)
    {
        if (!w.reg)
            return skip();
        Node n;
        {
            HarnessScope h;
            n = a.tree(0);
        }
        const bool ok = w.reg->add(build(n));
        return T(ok);
    }
    bool model_regadd(Model& m, const Args& a, std::string& o)
    {
        Node n = a.tree(0);
        n.normalise();
        const Node* id = nullptr;
        for (const auto& k : n.meta)
            if (k.first == "id")
                id = &k.second;
        if (!id) {
            o = "throws LogicError: Element has no ID";
            return true;
        }
        if (id->type != 'S') {
            o = "throws LogicError: Value of element meta 'id' is not StringElement";
            return true;
        }
        if (isReserved(id->scalar)) {
            o = "throws LogicError: You can not register a basic element";
            return true;
        }
        if (m.reg.count(id->scalar)) {
            o = "0";
            return true;
        }
        m.reg[id->scalar] = n;
        o = "1";
        return true;
    }
    void gen_type(Rng& r, Line& l)
    {
        l.args.push_back(sim::quote(r.chance(1, 6) ? std::string("object") : random_type(r)));
    }
    std::string run_regfind(World& w, const Args& a)
    {
        if (!w.reg)
            return skip();
        std::string k;
        {
            HarnessScope h;
            k = a.s(0);
        }
        return T(static_cast<const Registry&>(*w.reg).find(k));
    }
    bool model_regfind(Model& m, const Args& a, std::string& o)
    {
        auto it = m.reg.find(a.s(0));
        o = it == m.reg.end() ? "_" : it->second.text();
        return true;
    }
    std::string run_regremove(World& w, const Args& a)
    {
        if (!w.reg)
            return skip();
        std::string k;
        {
            HarnessScope h;
            k = a.s(0);
        }
        return T(w.reg->remove(k));
    }
    bool model_regremove(Model& m, const Args& a, std::string& o)
    {
        o = m.reg.erase(a.s(0)) ? "1" : "0";
        return true;
    }
    std::string run_regclear(World& w, const Args&)
    {
        if (!w.reg)
            return skip();
        w.reg->clear();
        return str("ok");
    }
    bool model_regclear(Model& m, const Args&, std::string& o)
    {
        m.reg.clear();
        o = "ok";
        return true;
    }
    std::string run_regnew(World& w, const Args&)
    {
        auto r = refract::make_unique<Registry>();
        w.reg = std::move(r);
        return str("ok");
    }
    bool model_regnew(Model& m, const Args&, std::string& o)
    {
        m.reg = initial_model().reg;
        o = "ok";
        return true;
    }
    std::string run_root(World& w, const Args& a)
    {
        if (!w.reg)
            return skip();
        std::string k;
        {
            HarnessScope h;
            k = a.s(0);
        }
        auto r = FindRootAncestor(k, *w.reg);
        HarnessScope h;
        if (!r)
            return "none";
        return T(r);
    }
    // the last type of the chain of base types that is registered; of a chain that closes, any of its types
    bool model_root(Model& m, const Args& a, std::string& o)
    {
        auto it = m.reg.find(a.s(0));
        if (it == m.reg.end()) {
            o = "none";
            return true;
        }
        std::vector<std::string> seen = { it->first };
        for (;;) {
            const auto& n = it->second;
            const std::string base = n.name.empty() ? type_name(n.type) : n.name;
            if (isReserved(base))
                break;
            auto next = m.reg.find(base);
            if (next == m.reg.end() || next == it)
                break;
            if (std::find(seen.begin(), seen.end(), next->first) != seen.end()) {
                o = "*"; // must come back; what it gives is not told
                return true;
            }
            seen.push_back(next->first);
            it = next;
        }
        o = it->second.text();
        return true;
    }

    // ---------------------------------------------------------------- reading trees
    std::string run_print(World& w, const Args& a)
    {
        auto e = at(w, a.n(0), a.n(1), p_any);
        if (!e || !printable(sub(e)))
            return skip();
        Sink sink;
        std::ostream out(&sink);
        PrintVisitor p(static_cast<int>(a.n(1) % 3), out, a.n(1) % 2 != 0);
        refract::Visit(p, *e);
        HarnessScope h;
        return sim::quote(sink.text);
    }
    std::string run_eq(World& w, const Args& a)
    {
        auto e = at(w, a.n(0), a.n(1), p_any), f = at(w, a.n(2), a.n(3), p_any);
        if (!e || !f)
            return skip();
        {
            HarnessScope h;
            if (!whole(read(e)) || !whole(read(f)))
                return skip();
        }
        const bool eq = *e == *f, ne = *e != *f;
        bool same = *e == *e;
        return T(eq + 2 * ne + 4 * same);
    }
    std::string run_equal(World& w, const Args& a)
    {
        auto e = at(w, a.n(0), a.n(1), p_any), f = at(w, a.n(2), a.n(3), p_any);
        if (!e || !f)
            return skip();
        {
            HarnessScope h;
            auto x = read(e), y = read(f);
            if (!whole(x) || !whole(y) || x.type != y.type)
                return skip();
        }
        bool eq = drafter::Equal(*e, *f);
        bool eq2 = drafter::Equal<drafter::detail::IgnoreKeys, drafter::detail::IgnoreKeys>(
            *e, *f, drafter::detail::IgnoreKeys({ "default", "samples" }), drafter::detail::IgnoreKeys({ "id" }));
        return T(eq + 2 * eq2);
    }
    struct Names {
        std::string out; //< of the callback: kept by the harness
        int left;
        struct Stop {
        };
        void note(const char* t, const IElement& e)
        {
            HarnessScope h;
            if (left-- == 0) {
                sim::count(c_cbthrew);
                throw Stop();
            }
            out += t;
            out += ':';
            out += e.element();
            out += ' ';
        }
        void operator()(const IElement& e)
        {
            note("i", e);
        }
        template <typename E>
        void operator()(const E& e)
        {
            note(E::ValueType::name, e);
        }
    };
    std::string run_iterate(World& w, const Args& a)
    {
        auto e = at(w, a.n(0), a.n(1), p_any);
        if (!e)
            return skip();
        Names f{ {}, 1 << 30 };
        Iterate<Recursive> it(f);
        it(*e);
        HarnessScope h;
        return f.out;
    }
    std::string run_children(World& w, const Args& a)
    {
        auto e = at(w, a.n(0), a.n(1), p_container);
        if (!e)
            return skip();
        {
            HarnessScope h;
            auto n = read(e);
            for (const auto& k : n.kids)
                if (k.empty)
                    return skip();
        }
        Names f{ {}, 1 << 30 };
        Iterate<Children> it(f);
        it(*e);
        HarnessScope h;
        return f.out;
    }
    std::string filtered_name(std::int64_t n)
    {
        static const char* const k[] = { "string", "A rather long named data structure", "member", "Alpha", "object" };
        return k[n % 5];
    }
    std::string run_filter(World& w, const Args& a)
    {
        auto e = at(w, a.n(0), a.n(1), p_any);
        if (!e)
            return skip();
        std::string name;
        {
            HarnessScope h;
            name = filtered_name(a.n(1));
        }
        FilterVisitor f((query::Element(name)));
        Iterate<Recursive> it(f);
        it(*e);
        HarnessScope h;
        std::string o = f.empty() ? "none" : "";
        for (auto x : f.elements())
            o += T(x) + " ";
        return o;
    }
    std::string run_typeof(World& w, const Args& a)
    {
        auto e = at(w, a.n(0), a.n(1), p_any);
        if (!e)
            return skip();
        TypeQueryVisitor v;
        refract::Visit(v, *e);
        const bool s = TypeQueryVisitor::as<StringElement>(e) != nullptr;
        const bool o = TypeQueryVisitor::as<const ObjectElement>(static_cast<const IElement*>(e)) != nullptr;
        return T(v.get() * 10 + s + 2 * o);
    }
    std::string run_key(World& w, const Args& a)
    {
        auto e = a.n(1) % 2 ? at(w, a.n(0), a.n(1), p_extended_key) : nullptr;
        if (!e)
            e = at(w, a.n(0), a.n(1), p_member);
        if (!e || !all_merge(sub(e)))
            return skip();
        return Q(GetKeyAsString(as<MemberElement>(e)));
    }
    bool named_members(const Node& n)
    {
        for (const auto& c : n.kids)
            if (c.type == 'M' && (c.empty || c.kids[0].absent()))
                return false;
        return true;
    }
    std::string run_byname(World& w, const Args& a)
    {
        auto e = at(w, a.n(0), a.n(1), p_object);
        if (!e)
            return skip();
        std::string k;
        {
            HarnessScope h;
            k = a.s(2);
            if (!named_members(read(e)))
                return skip();
        }
        return T(FindMemberByKey(as<ObjectElement>(e), k));
    }
    std::string run_compare(World& w, const Args& a)
    {
        auto e = at(w, a.n(0), a.n(1), p_any);
        if (!e)
            return skip();
        std::string k;
        {
            HarnessScope h;
            k = a.s(2);
            auto n = read(e);
            if (n.empty || (n.type == 'M' && (n.kids[1].absent() || n.kids[1].empty)))
                return skip();
        }
        ComparableVisitor v(k, ComparableVisitor::value);
        VisitBy(*e, v);
        return T(v.get());
    }
    // the same for the key of a member; a visit that does not say what it visits is refused
    std::string run_comparekey(World& w, const Args& a)
    {
        auto e = at(w, a.n(0), a.n(1), p_member);
        if (!e)
            return skip();
        std::string k;
        {
            HarnessScope h;
            k = a.s(2);
            auto n = read(e);
            if (n.kids[0].absent() || n.kids[0].empty)
                return skip();
            if (a.n(1) % 4 == 1 && n.kids[0].type == 'S')
                k = n.kids[0].scalar;
        }
        ComparableVisitor v(k, ComparableVisitor::key);
        if (a.n(1) % 16 == 15)
            refract::Visit(v, *e);
        else
            VisitBy(*e, v);
        return T(v.get());
    }
    // the values of elements are values themselves: copied, moved, assigned, swapped and compared
    template <typename V>
    auto differ(const V& x, const V& y, int) -> decltype(x != y)
    {
        return x != y;
    }
    template <typename V>
    bool differ(const V& x, const V& y, long)
    {
        return !(x == y);
    }
    struct Values {
        const IElement& other;
        bool seen;
        std::string out;
        void operator()(const IElement&) {}
        template <typename E>
        void operator()(const E& e)
        {
            using std::swap;
            using V = typename E::ValueType;
            auto f = TypeQueryVisitor::as<const E>(&other);
            if (!f || e.empty() || f->empty())
                return;
            const V &x = e.get(), &y = f->get();
            const bool eq = x == y, ne = differ(x, y, 0);
            V a(x), b(y);
            const bool copied = a == x && b == y;
            swap(a, b);
            const bool swapped = a == y && b == x;
            V c(std::move(a));
            a = b; // after it was moved from
            const bool moved = c == y && a == x;
            b = std::move(c);
            const bool assigned = b == y && x == a;
            V& self = b;
            b = self;
            const bool kept = b == y;
            auto made = refract::make_unique<E>(std::move(b));
            const std::string t = T(made.get());
            HarnessScope h;
            seen = true;
            out = T(eq + 2 * ne + 4 * copied + 8 * swapped + 16 * moved + 32 * assigned + 64 * kept) + t;
        }
    };
    std::string run_values(World& w, const Args& a)
    {
        auto e = at(w, a.n(0), a.n(1), p_any), f = at(w, a.n(2), a.n(3), p_any);
        if (!e || !f)
            return skip();
        {
            HarnessScope h;
            if (!whole(read(e)) || !whole(read(f)))
                return skip();
        }
        Values v{ *f, false, {} };
        VisitBy(*e, v);
        HarnessScope h;
        if (!v.seen)
            return "none";
        return v.out;
    }
    bool p_holds(const Node& n)
    {
        return (n.type == 'E' || n.type == 'H') && !n.empty;
    }
    // what an enumeration or a holder holds is taken away
    std::string run_vclaim(World& w, const Args& a)
    {
        auto e = at(w, a.n(0), a.n(1), p_holds);
        if (!e || a.n(0) % Slots == a.n(2) % Slots)
            return skip();
        std::unique_ptr<IElement> v;
        if (auto x = TypeQueryVisitor::as<EnumElement>(e))
            v = x->get().claim();
        else
            v = as<HolderElement>(e).get().claim();
        w.slot[a.n(2) % Slots] = std::move(v);
        return str("ok");
    }
    bool model_vclaim(Model& m, const Args& a, std::string& o)
    {
        auto e = at(m, a.n(0), a.n(1), p_holds);
        o = "skip";
        if (!e || a.n(0) % Slots == a.n(2) % Slots)
            return true;
        Node v = e->kids[0];
        e->kids[0] = Node();
        m.slot[a.n(2) % Slots] = v;
        o = "ok";
        return true;
    }
    std::string run_info(World& w, const Args& a)
    {
        auto e = at(w, a.n(0), a.n(1), p_any);
        if (!e)
            return skip();
        {
            HarnessScope h;
            if (!whole(read(e)))
                return skip();
        }
        const StringElement* d = GetDescription(*e);
        const bool lit = IsLiteral(*e);
        const bool fixed = HasTypeAttribute(*e, "fixed") || HasTypeAttribute(*e, "a type attribute that is quite long");
        const bool var = IsVariableProperty(*e);
        const auto c = FindCollectionMemberValue<StringElement>(e->meta(), "title");
        HarnessScope h;
        return T(d) + T(lit + 2 * fixed + 4 * var) + T(c);
    }
    struct ValueOf {
        const IElement* out = nullptr;
        void operator()(const IElement&) {}
        void operator()(const StringElement& e) { out = GetValue<StringElement>()(e); }
        void operator()(const NumberElement& e) { out = GetValue<NumberElement>()(e); }
        void operator()(const BooleanElement& e) { out = GetValue<BooleanElement>()(e); }
        void operator()(const ArrayElement& e) { out = GetValue<ArrayElement>()(e); }
        void operator()(const ObjectElement& e) { out = GetValue<ObjectElement>()(e); }
        void operator()(const EnumElement& e) { out = GetValue<EnumElement>()(e); }
    };
    std::string run_value(World& w, const Args& a)
    {
        auto e = at(w, a.n(0), a.n(1), a.n(1) % 3 ? p_samples : p_any);
        if (!e)
            return skip();
        {
            HarnessScope h;
            if (!whole(read(e)))
                return skip();
        }
        ValueOf v;
        VisitBy(*e, v);
        return T(v.out);
    }
    // what a mixin of a named type brings
    struct Fetch {
        template <typename E>
        void operator()(const E& e, std::vector<const IElement*>& to) const
        {
            if (!e.empty())
                for (const auto& k : e.get())
                    to.push_back(k.get());
        }
    };
    std::string run_mixin(World& w, const Args& a)
    {
        auto e = at(w, a.n(0), a.n(1), p_resolved);
        if (!e || !whole(sub(e)))
            return skip();
        std::vector<const IElement*> got;
        if (a.n(2) % 2)
            HandleRefWhenFetchingMembers<ArrayElement>(*e, got, Fetch());
        else
            HandleRefWhenFetchingMembers<ObjectElement>(*e, got, Fetch());
        HarnessScope h;
        std::string o;
        for (auto x : got)
            o += T(x) + " ";
        return o;
    }
    bool simple_number(const std::string& s)
    {
        return !s.empty() && s.size() <= 9 && s[0] >= '0' && s[0] <= '9';
    }
    std::string run_number(World& w, const Args& a)
    {
        auto e = at(w, a.n(0), a.n(1), p_number);
        if (!e)
            return skip();
        {
            HarnessScope h;
            if (!simple_number(read(e).scalar))
                return skip();
        }
        return T(static_cast<std::int64_t>(as<NumberElement>(e).get()));
    }
    std::string run_makenumber(World&, const Args& a)
    {
        const long long v = a.n(0) % 2 ? 1234567890123456789ll : 7;
        auto e = from_primitive(static_cast<std::size_t>(v - a.n(1)));
        std::string s;
        {
            HarnessScope h;
            s = a.n(1) % 2 ? "31415926535897932384626433832795" : "5";
        }
        auto f = make_element<NumberElement>(s);
        auto g = from_primitive_t("a long enough element name", s);
        HarnessScope h;
        return T(e.get()) + T(f.get()) + T(g.get());
    }
    // reaches into elements through the const interface only
    std::string run_walk(World& w, const Args& a)
    {
        auto e = at(w, a.n(0), a.n(1), p_any);
        if (!e)
            return skip();
        const IElement& c = *e;
        const bool has = c.meta().find("id") != c.meta().end();
        const bool att = c.attributes().find("default") != c.attributes().end();
        const auto n = c.meta().size() + 10 * c.attributes().size();
        const std::string name = c.element();
        HarnessScope h;
        return name + T(has + 2 * att + 4 * c.empty()) + "/" + T(static_cast<std::int64_t>(n));
    }
    // the whole tree, through the accessors
    std::string run_dump(World& w, const Args& a)
    {
        auto& e = w.slot[a.n(0) % Slots];
        HarnessScope h;
        return T(e.get());
    }

    // ---------------------------------------------------------------- giving up in the middle
    void gen_cancel(Rng& r, Line& l)
    {
        gen_sk(r, l);
        l.args.push_back(S(r.below(12)));
        l.args.push_back(S(r.below(3)));
    }
    template <typename Strategy>
    std::string cancelled(const IElement& e, int at, int how)
    {
        // a visit that its callback ends by an exception; then the same iterator again
        Names f{ {}, at };
        Iterate<Strategy> it(f);
        bool stopped = false;
        try {
            it(e);
        } catch (const Names::Stop&) {
            stopped = true;
        }
        std::string first;
        {
            HarnessScope h;
            first = f.out;
            f.out.clear();
            f.left = 1 << 30;
        }
        it(e);
        Names g{ {}, 1 << 30 };
        Iterate<Strategy> fresh(g);
        fresh(e);
        HarnessScope h;
        if (f.out != g.out)
            sim::violate("cancel",
                how ? "iterate-children" : "iterate-recursive",
                "after a visit that its callback ended by an exception, the same iterator visits\n  " + f.out
                    + "\nand a new one\n  " + g.out);
        if (g.out.compare(0, first.size(), first) != 0)
            sim::violate("cancel", how ? "iterate-children" : "iterate-recursive", "the visit up to its end by an exception was\n  " + first + "\nand the whole one is\n  " + g.out);
        return T(stopped) + first;
    }
    std::string run_cancel(World& w, const Args& a)
    {
        auto e = at(w, a.n(0), a.n(1), a.n(3) % 3 == 1 ? p_container : p_any);
        if (!e)
            return skip();
        switch (a.n(3) % 3) {
            case 0:
                return cancelled<Recursive>(*e, static_cast<int>(a.n(2)), 0);
            case 1: {
                {
                    HarnessScope h;
                    auto n = read(e);
                    for (const auto& k : n.kids)
                        if (k.empty)
                            return skip();
                }
                return cancelled<Children>(*e, static_cast<int>(a.n(2)), 1);
            }
        }
        // a predicate that throws
        struct Stop {
        };
        int left = static_cast<int>(a.n(2));
        bool stopped = false;
        FilterVisitor f([&left](const IElement&) {
            HarnessScope h;
            if (left-- == 0) {
                sim::count(c_cbthrew);
                throw Stop();
            }
            return true;
        });
        Iterate<Recursive> it(f);
        try {
            it(*e);
        } catch (const Stop&) {
            stopped = true;
        }
        HarnessScope h;
        return T(stopped) + T(static_cast<std::int64_t>(f.elements().size()));
    }
    void gen_sinkfail(Rng& r, Line& l)
    {
        gen_sk(r, l);
        l.args.push_back(S(r.chance(1, 4) ? r.below(400) : r.below(60)));
        l.args.push_back(S(r.below(r.chance(1, 8) ? 16 : 8)));
        l.args.push_back(S(r.below(2)));
    }
    apib::syntax::media_type media(std::int64_t seed)
    {
        HarnessScope h;
        Rng r(static_cast<std::uint64_t>(seed) + 99);
        static const std::vector<std::string> t
            = { "application", "text", "application", "", "a-very-long-type-name-beyond-small-buffers" },
            s = { "json", "schema", "html", "vnd.apiary.a-long-subtype-name-for-tests", "" }, x = { "", "json", "xml" };
        apib::syntax::media_type m;
        m.type = r.pick(t);
        m.subtype = r.pick(s);
        m.suffix = r.pick(x);
        const auto n = r.below(r.chance(1, 12) ? 24 : 3);
        for (std::uint64_t i = 0; i < n; ++i) {
            static const std::vector<std::string> v = { "utf-8", "a b", "x\"y\\z", "line\r", "a;b=c",
                "a parameter value which is longer than small buffers" };
            m.parameters.emplace_back(r.chance(1, 8) ? "" : r.pick(x) + "charset", r.pick(v));
        }
        return m;
    }
    template <typename Write>
    std::string into_broken_sink(std::size_t limit, std::int64_t how, const char* what, Write write)
    {
        const bool throws = how & 1, mask = how & 2, failed = how & 8;
        Sink good, bad, again;
        {
            std::ostream out(&good);
            write(out);
        }
        bad.limit = limit;
        bad.throws = throws;
        bad.recovers = how & 4;
        bool thrown = false, own = false, told;
        {
            std::ostream out(&bad);
            if (mask)
                out.exceptions(std::ios::badbit);
            if (failed)
                out.setstate(std::ios::failbit);
            try {
                write(out);
            } catch (const Sink::Broken&) {
                thrown = own = true;
            } catch (const std::ios_base::failure&) {
                thrown = true;
            }
            told = !out.good();
        }
        {
            std::ostream out(&again);
            write(out);
        }
        HarnessScope h;
        if (failed) {
            if (!bad.text.empty())
                sim::violate("sink", what, "a stream that had failed before was given\n  " + sim::quote(bad.text));
            if (!told)
                sim::violate("sink", what, "a stream had failed before, and does not say so any more");
            return sim::quote(good.text);
        }
        if (good.text.compare(0, bad.text.size(), bad.text) != 0)
            sim::violate("sink",
                what,
                "a sink that broke after " + std::to_string(limit) + " bytes was given\n  " + sim::quote(bad.text)
                    + "\nwhich is no beginning of\n  " + sim::quote(good.text));
        const bool lost = bad.text.size() < good.text.size();
        if (lost && !told)
            sim::violate("sink", what, "the sink broke after " + std::to_string(limit) + " bytes, but the stream does not say so");
        if (lost && bad.text.size() != limit)
            sim::violate("sink",
                what,
                "the sink took " + std::to_string(limit) + " bytes and was given only " + std::to_string(bad.text.size())
                    + " of " + std::to_string(good.text.size()));
        if (lost && mask && !thrown)
            sim::violate("sink", what, "the sink broke, exceptions were asked for, and none came");
        if (lost && mask && throws && !own)
            sim::violate("sink", what, "the sink threw, exceptions were asked for, and another one came");
        if (!lost && (thrown || (told && bad.text.size() != limit)))
            sim::violate("sink", what, "everything was written, and a failure was told");
        if (again.text != good.text)
            sim::violate("sink",
                what,
                "written again after a failure:\n  " + sim::quote(again.text) + "\nbefore it:\n  " + sim::quote(good.text));
        return sim::quote(good.text);
    }
    std::string run_sinkprint(World& w, const Args& a)
    {
        auto e = at(w, a.n(0), a.n(1), p_any);
        if (!e || !printable(sub(e)))
            return skip();
        return into_broken_sink(
            static_cast<std::size_t>(a.n(2)), a.n(3), "print", [e](std::ostream& out) {
                PrintVisitor p(0, out);
                refract::Visit(p, *e);
            });
    }
    std::string run_sinkmedia(World&, const Args& a)
    {
        const auto m = media(a.n(1) * 6 + a.n(0));
        return into_broken_sink(
            static_cast<std::size_t>(a.n(2)), a.n(3), "media-type", [&m](std::ostream& out) {
                using namespace apib::backend;
                out << m;
            });
    }

    // ---------------------------------------------------------------- text
    void gen_seed(Rng& r, Line& l)
    {
        l.args.push_back(S(r.below(1000)));
    }
    std::string run_media(World&, const Args& a)
    {
        const auto m = media(a.n(0));
        using namespace apib::backend;
        const std::string s = serialize(m);
        const bool j = apib::isJSON(m), js = apib::isJSONSchema(m);
        HarnessScope h;
        return sim::quote(s) + T(j + 2 * js);
    }
    std::string source(std::int64_t seed)
    {
        HarnessScope h;
        Rng r(static_cast<std::uint64_t>(seed) + 7);
        std::string s;
        static const std::vector<std::string> p = { "# Group \xc4\x8c" "apek\n", "+ Response 200 (text/plain)\n\n",
            "        Hello \xf0\x9f\x98\x80 World!\n", "\n", "\xe6\xbc\xa2\xe5\xad\x97", "FORMAT: 1A\r\n",
            "+ Attributes (array[Alpha])\n", "x" };
        const auto n = 1 + r.below(r.chance(1, 30) ? 700 : 10);
        for (std::uint64_t i = 0; i < n; ++i)
            s += r.pick(p);
        return s;
    }
    mdp::BytesRangeSet ranges(std::int64_t seed, std::size_t len)
    {
        HarnessScope h;
        Rng r(static_cast<std::uint64_t>(seed) + 21);
        mdp::BytesRangeSet s;
        const bool many = r.chance(1, 12);
        const auto n = r.below(many ? 80 : 4);
        std::size_t at = 0;
        for (std::uint64_t i = 0; i < n && at < len; ++i) {
            at += r.below(many ? std::min<std::size_t>(len - at, 5) : len - at);
            const std::size_t l = r.below((many ? std::min<std::size_t>(len - at, 9) : len - at) + 1);
            s.push_back(mdp::BytesRange(at, l));
            at += l;
        }
        return s;
    }
    std::string show(const mdp::RangeSet<mdp::Range>& s)
    {
        HarnessScope h;
        std::string o;
        for (const auto& r : s)
            o += std::to_string(r.location) + ":" + std::to_string(r.length) + ";";
        return o;
    }
    void gen_seed2(Rng& r, Line& l)
    {
        l.args.push_back(S(r.below(1000)));
        l.args.push_back(S(r.below(1000)));
    }
    bool inside(char c) // a character, not the first byte of one
    {
        return (c & 0xc0) == 0x80;
    }
    bool aligned(const std::string& s, const mdp::BytesRangeSet& rs)
    {
        for (const auto& r : rs)
            for (const auto at : { r.location, r.location + r.length })
                if (at < s.size() && inside(s[at]))
                    return false;
        return true;
    }
    std::string run_index(World&, const Args& a)
    {
        const std::string s = source(a.n(0));
        const auto rs = ranges(a.n(1), s.size());
        mdp::ByteBufferCharacterIndex idx;
        mdp::BuildCharacterIndex(idx, s);
        auto c1 = mdp::BytesRangeSetToCharactersRangeSet(rs, idx);
        auto c2 = mdp::BytesRangeSetToCharactersRangeSet(rs, s);
        auto c3 = mdp::BytesRangeSetToConsecutiveCharactersRangeSet(rs, idx);
        HarnessScope h;
        // (the last call is for its allocations: what it gives is known not to be right)
        return show(c1) + " " + (aligned(s, rs) ? show(c2) : "?") + " " + T(static_cast<std::int64_t>(c3.size()));
    }
    std::string run_map(World&, const Args& a)
    {
        const std::string s = source(a.n(0));
        const auto rs = ranges(a.n(1), s.size());
        const std::string m = mdp::MapBytesRangeSet(rs, s);
        return Q(m);
    }
    std::string run_lines(World&, const Args& a)
    {
        const std::string s = source(a.n(0));
        const auto idx = drafter::GetLinesEndIndex(s);
        const auto p = drafter::GetLineFromMap(idx, mdp::Range(static_cast<std::size_t>(a.n(1)) % 40, 1 + static_cast<std::size_t>(a.n(1)) % 7));
        HarnessScope h;
        std::string o;
        for (auto i : idx)
            o += std::to_string(i) + ",";
        return o + " " + T(static_cast<std::int64_t>(p.fromLine)) + ":" + T(static_cast<std::int64_t>(p.fromColumn)) + "-"
            + T(static_cast<std::int64_t>(p.toLine)) + ":" + T(static_cast<std::int64_t>(p.toColumn));
    }
    std::string run_utf8(World&, const Args& a)
    {
        using namespace drafter::utils::utf8;
        const std::string s = source(a.n(0));
        std::string back;
        std::int64_t n = 0;
        input_iterator<std::string::const_iterator> it(s), e(s.end(), s.end());
        for (; it != e; ++it, ++n)
            encode(*it, std::back_inserter(back));
        HarnessScope h;
        return T(n) + T(back == s);
    }
    std::string run_section(World&, const Args& a)
    {
        return Q(snowcrash::SectionName(static_cast<snowcrash::SectionType>(a.n(0) % 45)));
    }
    std::string run_keys(World&, const Args& a)
    {
        using drafter::SerializeKey;
        const std::string* k[] = { &SerializeKey::Metadata, &SerializeKey::HTTPTransaction, &SerializeKey::TypeAttributes,
            &SerializeKey::MessageBodySchema, &SerializeKey::AnnotationLocationLength, &SerializeKey::HrefVariables };
        const std::string copy = *k[a.n(0) % 6];
        return Q(copy);
    }
    std::string run_options(World&, const Args& a)
    {
        drafter_parse_options p;
        drafter_serialize_options s;
        p.flags = static_cast<unsigned long>(a.n(0) % 8);
        s.flags = static_cast<unsigned long>(a.n(0) % 2);
        s.format = a.n(1) % 2 ? DRAFTER_SERIALIZE_JSON : DRAFTER_SERIALIZE_YAML;
        return T(drafter::is_name_required(&p) + 2 * drafter::is_skip_gen_bodies(&p)
            + 4 * drafter::is_skip_gen_body_schemas(&p) + 8 * drafter::are_sourcemaps_included(&s)
            + 16 * drafter::get_format(&s) + 100 * drafter::get_format(nullptr) + 1000 * drafter::is_name_required(nullptr));
    }
    // Nothing that repeats is repeated as a whole: the C library takes for ever to match such patterns
    std::string pattern(Rng& r, int depth, bool& repeats)
    {
        std::string o;
        const auto n = 1 + r.below(3);
        for (std::uint64_t i = 0; i < n; ++i) {
            static const std::vector<std::string> atoms = { "a", "b", "c", "A", "B", "1", ".", "[ab]", "[^a]", "[[:space:]]",
                "[[:alpha:]]", "[0-9A-C]", "\\.", "-", "ab" };
            static const std::vector<std::string> times = { "", "", "", "?", "*", "+", "{1,2}", "{2}" };
            std::string atom;
            bool within = false;
            if (depth > 0 && r.chance(2, 5)) {
                atom = "(" + pattern(r, depth - 1, within);
                if (r.chance(1, 3))
                    atom += "|" + pattern(r, depth - 1, within);
                if (!r.chance(1, 30))
                    atom += ")";
            } else
                atom = r.pick(atoms);
            const auto t = r.below(within ? 4 : times.size());
            repeats = repeats || within || t > 3;
            o += atom + times[t];
        }
        return o;
    }
    void gen_regex(Rng& r, Line& l)
    {
        static const std::vector<std::string> ex = { "^[[:space:]]*([A-Z]+)[[:space:]]+(.*)$", "^(GET|POST) (/[a-z]*)",
            "a(b)?c", "([", "[[:alpha:]]+-([0-9]+)", "^Group[[:blank:]]+(.+)$", "(x*)*y", "^[[:blank:]]*[Bb]ody[[:blank:]]*$",
            "^[[:blank:]]*[Aa]ttributes?[[:blank:]]*(\\(.*\\))?$", "^[[:blank:]]*([Ii]nclude[[:blank:]]+)",
            "^[[:blank:]]*[Rr]esponse([[:blank:][:digit:]]+)?(\\([^)]*\\))?[[:blank:]]*", "^[[:blank:]]*[Rr]elation[[:blank:]]*:[[:blank:]]*([a-z][a-z0-9.-]*)?[[:blank:]]*$",
            "^enum\\[([^][]+)]$", "^[[:blank:]]*([Ii]tems|[Mm]embers)[[:blank:]]*$", "^[[:blank:]]*[Dd]efault[[:blank:]]*(:.*)?$",
            "((a)|(b))+", "^$", ".", "(a)(b)(c)(d)(e)(f)(g)(h)(i)", "*", "a{2,1}", "[z-a]", "(", "a|b|", "[[:digit:]]", "" },
                                              tx = { "GET /users", "Group of long named resources in here", "abc", "ac", "foo-42", "",
                                                  "xxxxxxxxxxxxxxxxxxxxxxxxy", "POST  something", "Body", "  Attributes (array[User])", "Include User",
                                                  "+ Response 200 (text/plain)", "Response 200 (text/plain)", "Relation: self.x", "enum[string]", "Items",
                                                  "default: 42", "abab", "abcdefghi", "a\nb", "h\xc3\xa9llo", "(", "\\", "Group" };
        std::string e = r.pick(ex), t = r.pick(tx);
        if (r.chance(2, 5)) { // or one of many that are made up, and a text that it may well match
            bool repeats = false;
            e = pattern(r, 3, repeats);
            if (r.chance(1, 6))
                e = "^" + e;
            if (r.chance(1, 6))
                e += "$";
            t.clear();
            const auto n = r.below(r.chance(1, 8) ? 60 : 12);
            for (std::uint64_t i = 0; i < n; ++i)
                t += "ababcABC1 -\n"[r.below(11)];
        }
        l.args.push_back(sim::quote(e));
        l.args.push_back(sim::quote(t));
        l.args.push_back(S(r.chance(1, 6) ? r.below(20) : 1 + r.below(9)));
    }
    // what the C library says of it. Of some patterns with groups within repeated groups it says different things
    // depending on how many groups it is asked for: those are not told
    struct Captured {
        bool matches = false, told = true;
        std::vector<std::string> groups;
    };
    Captured captured(const Args& a)
    {
        Captured c;
        const std::string ex = a.s(0), tx = a.s(1);
        sim::shared->in_libc = 1;
        struct Guard {
            ~Guard()
            {
                sim::shared->in_libc = 0;
            }
        } g;
        regex_t re;
        if (ex.empty() || tx.empty() || ::regcomp(&re, ex.c_str(), REG_EXTENDED))
            return c;
        for (const std::size_t size : { std::size_t(24), std::size_t(8), std::size_t(2), static_cast<std::size_t>(a.n(2)) }) {
            std::vector<regmatch_t> m(size);
            c.matches = ::regexec(&re, tx.c_str(), size, m.data(), 0) == 0;
            std::vector<std::string> groups;
            for (const auto& g : m)
                groups.push_back(!c.matches || g.rm_so == -1 ? "" : tx.substr(static_cast<std::size_t>(g.rm_so), static_cast<std::size_t>(g.rm_eo - g.rm_so)));
            if (c.groups.empty())
                c.groups = groups;
            for (std::size_t i = 0; i < size; ++i)
                c.told = c.told && groups[i] == c.groups[i];
        }
        ::regfree(&re);
        return c;
    }
    bool model_regex(Model&, const Args& a, std::string& o)
    {
        o = T(captured(a).matches);
        return true;
    }
    bool model_capture(Model&, const Args& a, std::string& o)
    {
        const auto c = captured(a);
        o = T(c.matches);
        if (c.matches)
            for (std::int64_t i = 0; i < a.n(2); ++i)
                o += " " + sim::quote(c.groups[static_cast<std::size_t>(i)]);
        return c.told;
    }
    bool model_capture1(Model&, const Args& a, std::string& o)
    {
        const auto c = captured(a);
        o = sim::quote(c.matches ? c.groups[1] : "");
        return c.told;
    }
    std::string run_regex(World&, const Args& a)
    {
        std::string ex, tx;
        {
            HarnessScope h;
            ex = a.s(0);
            tx = a.s(1);
        }
        sim::OwnPattern own;
        const bool m = snowcrash::RegexMatch(tx, ex);
        return T(m);
    }
    std::string run_capture(World&, const Args& a)
    {
        std::string ex, tx;
        snowcrash::CaptureGroups g;
        {
            HarnessScope h;
            ex = a.s(0);
            tx = a.s(1);
        }
        if (a.n(2) % 2) { // what is there from before has to go
            g.push_back("what an earlier match has left behind");
            g.resize(static_cast<std::size_t>(a.n(2)) / 2 * 3);
        }
        sim::OwnPattern own;
        const bool m = snowcrash::RegexCapture(tx, ex, g, static_cast<std::size_t>(a.n(2)));
        HarnessScope h;
        std::string o = T(m);
        if (m || (!tx.empty() && !ex.empty())) // tried without a match: nothing is left of what was there
            for (const auto& s : g)
                o += " " + sim::quote(s);
        return o;
    }
    std::string run_capture1(World&, const Args& a)
    {
        std::string ex, tx;
        {
            HarnessScope h;
            ex = a.s(0);
            tx = a.s(1);
        }
        sim::OwnPattern own;
        return Q(snowcrash::RegexCaptureFirst(tx, ex));
    }
}
    PlainReport plain_report(std::int64_t seed)
    {
        HarnessScope h;
        Rng r(static_cast<std::uint64_t>(seed) + 5);
        PlainReport rep;
        auto note = [&r]() {
            PlainNote a;
            a.code = static_cast<int>(r.below(r.chance(1, 8) ? 1000 : 6));
            a.message = random_text(r);
            const auto n = r.chance(1, 12) ? r.below(12) : r.below(3);
            for (std::uint64_t i = 0; i < n; ++i) {
                const auto at = r.below(r.chance(1, 4) ? (r.chance(1, 4) ? (r.chance(1, 8) ? 200000 : 8000) : 140) : 30);
                a.location.emplace_back(at, r.below(r.chance(1, 8) ? 60 : 10));
            }
            return a;
        };
        if (r.chance(1, 2))
            rep.error = note();
        const auto n = r.chance(1, 16) ? r.below(r.chance(1, 6) ? 400 : 40) : r.below(3);
        for (std::uint64_t i = 0; i < n; ++i) {
            PlainNote w = note();
            // what was said once may be said again, there or elsewhere
            const PlainNote* before = i ? &rep.warnings.back() : &rep.error;
            switch (r.below(12)) {
                case 0:
                    w = *before;
                    break;
                case 1:
                    w.message = before->message;
                    break;
                case 2:
                    w.location = before->location;
                    break;
                case 3:
                    if (!w.location.empty())
                        w.location.push_back(std::make_pair(w.location.front().first, w.location.front().second));
                    break;
            }
            rep.warnings.push_back(w);
        }
        return rep;
    }
    snowcrash::Report report_of(std::int64_t seed)
    {
        HarnessScope h;
        const PlainReport p = plain_report(seed);
        Rng r(static_cast<std::uint64_t>(seed) + 17);
        auto note = [&r](const PlainNote& n) {
            mdp::CharactersRangeSet at;
            for (const auto& l : n.location)
                at.push_back(mdp::CharactersRange(l.first, l.second));
            snowcrash::SourceAnnotation a(n.message, n.code, at);
            if (r.chance(1, 2))
                return a;
            snowcrash::SourceAnnotation b;
            if (r.chance(1, 2)) {
                b.code = n.code;
                b.message = n.message;
                b.location = at;
            } else
                b = a;
            return b;
        };
        snowcrash::Report rep;
        std::size_t done = 0;
        for (auto parts = r.below(3); parts; --parts) { // in parts, the error of the last of them stands
            snowcrash::Report part;
            if (r.chance(1, 2))
                part.error = snowcrash::Error("an error that another takes the place of", 3);
            for (auto k = r.below(4); k && done < p.warnings.size(); --k)
                part.warnings.push_back(note(p.warnings[done++]));
            rep += part;
        }
        snowcrash::Report last;
        last.error = note(p.error);
        while (done < p.warnings.size())
            last.warnings.push_back(note(p.warnings[done++]));
        rep += last;
        if (r.chance(1, 2))
            return rep;
        const snowcrash::Report copy(rep);
        return copy;
    }
namespace
{
    std::string show(const snowcrash::Report& r)
    {
        HarnessScope h;
        auto note = [](const snowcrash::SourceAnnotation& a) {
            return T(a.code) + sim::quote(a.message) + show(a.location);
        };
        std::string o = note(r.error);
        for (const auto& w : r.warnings)
            o += " " + note(w);
        return o;
    }
    std::string show(const PlainNote& a)
    {
        std::string o = T(a.code) + sim::quote(a.message);
        for (const auto& l : a.location)
            o += std::to_string(l.first) + ":" + std::to_string(l.second) + ";";
        return o;
    }
    std::string run_annotation(World&, const Args& a)
    {
        const auto r = report_of(a.n(0)), q = report_of(a.n(1));
        snowcrash::Report copy(r);
        copy += q;
        const snowcrash::SourceAnnotation made(q.error.message, q.error.code, q.error.location);
        snowcrash::SourceAnnotation n("a message which does not fit a small buffer", 3, copy.error.location);
        n = copy.error;
        const snowcrash::SourceAnnotation k(n);
        HarnessScope h;
        auto note = [](const snowcrash::SourceAnnotation& x) { return " " + T(x.code) + sim::quote(x.message) + show(x.location); };
        return show(copy) + note(made) + note(k);
    }
    std::string run_report(World&, const Args& a)
    {
        const auto r = report_of(a.n(0));
        const auto s = source(a.n(1));
        PrintReport(r, s, a.n(1) % 2 != 0);
        return str("ok");
    }
}
    Node parse_result_node(std::int64_t seed)
    {
        Node root;
        root.type = 'A';
        root.name = "parseResult";
        Rng r(static_cast<std::uint64_t>(seed) + 3);
        const auto n = r.chance(1, 16) ? r.below(40) : r.below(4);
        for (std::uint64_t i = 0; i < n; ++i) {
            Node s, c, cl, code, sm, rs;
            s.type = 'S';
            s.name = r.chance(1, 5) ? "" : "annotation";
            s.scalar = random_text(r);
            cl.type = 'A';
            c.type = 'S';
            c.scalar = r.chance(1, 2) ? "warning" : "error";
            cl.kids = { c };
            s.meta.emplace_back("classes", cl);
            code.type = 'N';
            code.scalar = std::to_string(r.below(r.chance(1, 8) ? 1000 : 12));
            s.attrs.emplace_back("code", code);
            sm.type = rs.type = 'A';
            const auto k = r.chance(1, 12) ? r.below(12) : r.below(3);
            for (std::uint64_t j = 0; j < k; ++j) {
                Node a, b, p;
                a.type = b.type = 'N';
                a.scalar = std::to_string(r.below(r.chance(1, 4) ? 140 : 30));
                b.scalar = std::to_string(r.below(r.chance(1, 8) ? 60 : 10));
                p.type = 'A';
                p.kids = { a, b };
                rs.kids.push_back(p);
            }
            if (!rs.kids.empty() && r.chance(1, 8))
                rs.kids.push_back(rs.kids[0]);
            sm.kids = { rs };
            s.attrs.emplace_back("sourceMap", sm);
            switch (r.below(20)) {
                case 0:
                    s.meta.clear();
                    break;
                case 1:
                    s.attrs.erase(s.attrs.begin());
                    break;
                case 2:
                    s.attrs.pop_back();
                    break;
                case 3:
                    s.attrs.clear();
                    break;
                case 4:
                case 5:
                    if (!root.kids.empty())
                        s = root.kids.back();
                    break;
                case 6:
                    if (!root.kids.empty())
                        s.scalar = root.kids.back().scalar;
                    break;
            }
            root.kids.push_back(s);
        }
        return root;
    }
namespace
{
    std::unique_ptr<IElement> parse_result(std::int64_t seed)
    {
        return build(parse_result_node(seed));
    }
    std::string run_reportel(World&, const Args& a)
    {
        std::unique_ptr<IElement> e;
        {
            HarnessScope h;
            e = parse_result(a.n(0));
        }
        struct Guard { // released as what it is
            std::unique_ptr<IElement>& e;
            ~Guard()
            {
                HarnessScope h;
                e.reset();
            }
        } g{ e };
        const auto s = source(a.n(1));
        PrintReport(e.get(), s, a.n(1) % 2 != 0, static_cast<int>(a.n(0) % 3));
        return str("ok");
    }
    // ---------------------------------------------------------------- Markdown trees and ranges
    constexpr std::size_t MaxMd = 60;
    MdNode random_md(Rng& r, int depth)
    {
        MdNode n;
        const auto c = depth > 0 ? r.below(4) : 0;
        for (std::uint64_t i = 0; i < c; ++i) {
            const std::string t = random_text(r);
            const auto type = static_cast<int>(r.below(10));
            const auto data = static_cast<int>(r.below(5));
            const auto at = r.below(40), len = r.below(10);
            MdNode k = random_md(r, depth - 1);
            k.type = type;
            k.text = t;
            k.data = data;
            k.map.emplace_back(at, len);
            n.kids.push_back(std::move(k));
        }
        return n;
    }
    MdNode md_of(std::int64_t seed)
    {
        HarnessScope h;
        Rng r(static_cast<std::uint64_t>(seed));
        MdNode n = random_md(r, 3);
        n.there = true;
        n.type = mdp::RootMarkdownNodeType;
        return n;
    }
    std::size_t size_of(const MdNode& n)
    {
        std::size_t s = 1;
        for (const auto& k : n.kids)
            s += size_of(k);
        return s;
    }
    // the k-th node, its parent before it
    template <typename N, typename Kids>
    N* find_md(N& n, std::size_t& k, Kids kids)
    {
        if (!k--)
            return &n;
        for (auto& c : kids(n))
            if (N* f = find_md(c, k, kids))
                return f;
        return nullptr;
    }
    MdNode* md_at(MdNode& n, std::int64_t k)
    {
        auto i = static_cast<std::size_t>(k) % size_of(n);
        return find_md(n, i, [](MdNode& x) -> std::vector<MdNode>& { return x.kids; });
    }
    std::size_t size_of(const mdp::MarkdownNode& n)
    {
        std::size_t s = 1;
        for (const auto& k : n.children())
            s += size_of(k);
        return s;
    }
    mdp::MarkdownNode* md_at(mdp::MarkdownNode& n, std::int64_t k)
    {
        auto i = static_cast<std::size_t>(k) % size_of(n);
        return find_md(n, i, [](mdp::MarkdownNode& x) -> mdp::MarkdownNodes& { return x.children(); });
    }
    void fill(mdp::MarkdownNode& n, const MdNode& m)
    {
        for (const auto& k : m.kids) {
            n.children().push_back(mdp::MarkdownNode(static_cast<mdp::MarkdownNodeType>(k.type), &n, k.text, k.data));
            for (const auto& p : k.map)
                n.children().back().sourceMap.push_back(mdp::BytesRange(p.first, p.second));
            fill(n.children().back(), k);
        }
    }
    // nodes that have the parent they were made with
    std::int64_t kept(const mdp::MarkdownNode& n)
    {
        std::int64_t c = 0;
        for (const auto& k : n.children())
            c += (k.hasParent() && &k.parent() == &n) + kept(k);
        return c;
    }
    std::string show(const mdp::MarkdownNode& n)
    {
        HarnessScope h;
        std::string o = T(n.type) + sim::quote(n.text) + T(n.data) + show(n.sourceMap) + "[";
        for (const auto& c : n.children())
            o += show(c);
        return o + "]";
    }
    std::string show(const std::vector<std::pair<std::size_t, std::size_t> >& v)
    {
        std::string o;
        for (const auto& r : v)
            o += std::to_string(r.first) + ":" + std::to_string(r.second) + ";";
        return o;
    }
    std::string show(const MdNode& n)
    {
        std::string o = T(n.type) + sim::quote(n.text) + T(n.data) + show(n.map) + "[";
        for (const auto& c : n.kids)
            o += show(c);
        return o + "]";
    }
    void append(std::vector<std::pair<std::size_t, std::size_t> >& to, const mdp::BytesRangeSet& more)
    {
        bool first = true;
        for (const auto& m : more) {
            if (first && !to.empty() && to.back().first + to.back().second == m.location)
                to.back().second += m.length;
            else
                to.emplace_back(m.location, m.length);
            first = false;
        }
    }
    void gen_md(Rng& r, Line& l)
    {
        l.args.push_back(S(r.below(2)));
        l.args.push_back(S(r.below(1000)));
    }
    void gen_md2(Rng& r, Line& l)
    {
        for (int i = 0; i < 2; ++i) {
            l.args.push_back(S(r.below(2)));
            l.args.push_back(S(r.below(60)));
        }
    }
    void gen_md3(Rng& r, Line& l)
    {
        l.args.push_back(S(r.below(2)));
        l.args.push_back(S(r.below(60)));
        l.args.push_back(S(r.below(8)));
        l.args.push_back(S(r.below(1000)));
    }
    std::string run_md(World& w, const Args& a)
    {
        MdNode m;
        {
            HarnessScope h;
            m = md_of(a.n(1));
        }
        struct Guard { // released as what it is
            MdNode& m;
            ~Guard()
            {
                HarnessScope h;
                MdNode().kids.swap(m.kids);
                m.kids.clear();
            }
        } g{ m };
        auto n = refract::make_unique<mdp::MarkdownNode>(mdp::RootMarkdownNodeType);
        fill(*n, m);
        const auto k = kept(*n);
        w.md[a.n(0) % 2] = std::move(n);
        return T(k);
    }
    bool model_md(Model& m, const Args& a, std::string& o)
    {
        auto& n = m.md[a.n(0) % 2];
        n = md_of(a.n(1));
        o = T(static_cast<std::int64_t>(size_of(n)) - 1);
        return true;
    }
    std::string run_mdcopy(World& w, const Args& a)
    {
        auto& from = w.md[a.n(0) % 2];
        auto& to = w.md[1 - a.n(0) % 2];
        if (!from || !to)
            return skip();
        if (a.n(1) % 2) {
            const mdp::MarkdownNode c(*from);
            return show(c);
        }
        *to = *from;
        return show(*to);
    }
    bool model_mdcopy(Model& m, const Args& a, std::string& o)
    {
        auto& from = m.md[a.n(0) % 2];
        auto& to = m.md[1 - a.n(0) % 2];
        if (!from.there || !to.there)
            return none(o);
        o = show(from);
        if (!(a.n(1) % 2))
            to = from;
        return true;
    }
    // a node becomes a copy of another one, perhaps of the same tree
    std::string run_mdassign(World& w, const Args& a)
    {
        auto &x = w.md[a.n(0) % 2], &y = w.md[a.n(2) % 2];
        if (!x || !y || size_of(*x) + size_of(*y) > MaxMd)
            return skip();
        const auto *to = md_at(*x, a.n(1)), *from = md_at(*y, a.n(3));
        *const_cast<mdp::MarkdownNode*>(to) = *from;
        return str("ok");
    }
    bool model_mdassign(Model& m, const Args& a, std::string& o)
    {
        auto &x = m.md[a.n(0) % 2], &y = m.md[a.n(2) % 2];
        if (!x.there || !y.there || size_of(x) + size_of(y) > MaxMd)
            return none(o);
        MdNode copy = *md_at(y, a.n(3));
        MdNode* to = md_at(x, a.n(1));
        copy.there = to->there;
        *to = std::move(copy);
        o = "ok";
        return true;
    }
    std::string run_mdpush(World& w, const Args& a)
    {
        auto &x = w.md[a.n(0) % 2], &y = w.md[a.n(2) % 2];
        if (!x || !y || size_of(*x) + size_of(*y) > MaxMd)
            return skip();
        auto *to = md_at(*x, a.n(1)), *from = md_at(*y, a.n(3));
        to->children().push_back(*from);
        return str("ok");
    }
    bool model_mdpush(Model& m, const Args& a, std::string& o)
    {
        auto &x = m.md[a.n(0) % 2], &y = m.md[a.n(2) % 2];
        if (!x.there || !y.there || size_of(x) + size_of(y) > MaxMd)
            return none(o);
        MdNode copy = *md_at(y, a.n(3));
        copy.there = false;
        md_at(x, a.n(1))->kids.push_back(std::move(copy));
        o = "ok";
        return true;
    }
    std::string run_mderase(World& w, const Args& a)
    {
        auto& x = w.md[a.n(0) % 2];
        if (!x)
            return skip();
        auto& kids = md_at(*x, a.n(1))->children();
        if (kids.empty())
            return skip();
        kids.erase(kids.begin() + a.n(2) % static_cast<std::int64_t>(kids.size()));
        return T(static_cast<std::int64_t>(kids.size()));
    }
    bool model_mderase(Model& m, const Args& a, std::string& o)
    {
        auto& x = m.md[a.n(0) % 2];
        if (!x.there)
            return none(o);
        auto& kids = md_at(x, a.n(1))->kids;
        if (kids.empty())
            return none(o);
        kids.erase(kids.begin() + a.n(2) % static_cast<std::int64_t>(kids.size()));
        o = T(static_cast<std::int64_t>(kids.size()));
        return true;
    }
    std::string run_mdset(World& w, const Args& a)
    {
        auto& x = w.md[a.n(0) % 2];
        if (!x)
            return skip();
        auto* n = md_at(*x, a.n(1));
        switch (a.n(2) % 4) {
            case 0: {
                std::string t;
                {
                    HarnessScope h;
                    Rng r(static_cast<std::uint64_t>(a.n(3)));
                    t = random_text(r);
                }
                n->text = t;
                break;
            }
            case 1:
                n->type = static_cast<mdp::MarkdownNodeType>(a.n(3) % 10);
                break;
            case 2:
                n->data = static_cast<int>(a.n(3));
                break;
            default:
                if (n->sourceMap.size() < 20)
                    n->sourceMap.append(ranges(a.n(3), 60));
        }
        return str("ok");
    }
    bool model_mdset(Model& m, const Args& a, std::string& o)
    {
        auto& x = m.md[a.n(0) % 2];
        if (!x.there)
            return none(o);
        auto* n = md_at(x, a.n(1));
        switch (a.n(2) % 4) {
            case 0: {
                Rng r(static_cast<std::uint64_t>(a.n(3)));
                n->text = random_text(r);
                break;
            }
            case 1:
                n->type = static_cast<int>(a.n(3) % 10);
                break;
            case 2:
                n->data = static_cast<int>(a.n(3));
                break;
            default:
                if (n->map.size() < 20)
                    append(n->map, ranges(a.n(3), 60));
        }
        o = "ok";
        return true;
    }
    std::string run_mdparent(World& w, const Args& a)
    {
        auto& x = w.md[a.n(0) % 2];
        if (!x)
            return skip();
        auto* n = md_at(*x, a.n(1));
        if (a.n(2) % 2) {
            n->setParent(x.get());
            const auto* c = n;
            return T(n->hasParent() + 2 * (&n->parent() == x.get()) + 4 * (&c->parent() == x.get()));
        }
        n->setParent(nullptr);
        int thrown = 0;
        try {
            n->parent();
        } catch (const char*) {
            ++thrown;
        }
        try {
            static_cast<const mdp::MarkdownNode*>(n)->parent();
        } catch (const char*) {
            ++thrown;
        }
        return T(n->hasParent() + 10 * thrown);
    }
    bool model_mdparent(Model& m, const Args& a, std::string& o)
    {
        if (!m.md[a.n(0) % 2].there)
            return none(o);
        o = a.n(2) % 2 ? "7" : "20";
        return true;
    }
    std::string run_ranges(World& w, const Args& a)
    {
        const auto more = ranges(a.n(1), 60);
        auto& r = w.ranges[a.n(0) % 2];
        if (r.size() > 40)
            r.clear();
        r.append(more);
        return str("ok");
    }
    bool model_ranges(Model& m, const Args& a, std::string& o)
    {
        auto& r = m.ranges[a.n(0) % 2];
        if (r.size() > 40)
            r.clear();
        append(r, ranges(a.n(1), 60));
        o = "ok";
        return true;
    }

    // ---------------------------------------------------------------- the log
    void gen_log(Rng& r, Line& l)
    {
        l.args.push_back(S(r.below(1000)));
    }
    std::string run_log(World&, const Args& a)
    {
        using namespace drafter::utils::log;
        std::string t;
        {
            HarnessScope h;
            t = "entry " + std::to_string(a.n(0));
        }
        switch (a.n(0) % 3) {
            case 0:
                LOG(info) << t;
                break;
            case 1:
                LOG(warning) << "w " << t << " of " << static_cast<int>(a.n(0));
                break;
            default:
                LOG(error) << t;
        }
        return str("ok");
    }

    // ---------------------------------------------------------------- what reading and combining must give
    Node text_node(const std::string& s)
    {
        Node n;
        n.type = 'S';
        n.scalar = s;
        return n;
    }
    bool model_append(Model& m, const Args& a, std::string& o)
    {
        auto e = at(m, a.n(0), a.n(1), p_any);
        if (!e)
            return none(o);
        for (const auto& p : e->attrs)
            if (p.first == "typeAttributes" && p.second.type != 'A')
                return none(o);
        o = "ok";
        const auto v = a.s(2);
        for (auto& p : e->attrs)
            if (p.first == "typeAttributes") {
                if (!p.second.empty)
                    for (const auto& k : p.second.kids)
                        if (k.type == 'S' && k.scalar == v)
                            return true;
                p.second.empty = false;
                p.second.kids.push_back(text_node(v));
                return true;
            }
        Node arr;
        arr.type = 'A';
        arr.kids.push_back(text_node(v));
        e->attrs.emplace_back("typeAttributes", arr);
        return true;
    }
    bool model_merge_any(Model& m, const Args& a, std::string& o, bool keep)
    {
        auto e = at(m, a.n(0), a.n(1), p_extend);
        if (!e || !merges(*e))
            return none(o);
        try {
            Node r = oracle::merge(*e);
            o = keep ? "ok" : r.text();
            if (keep)
                m.slot[a.n(2) % Slots] = r;
        } catch (const oracle::Logic& x) {
            o = "throws LogicError: " + x.what;
        }
        return true;
    }
    bool model_mergeto(Model& m, const Args& a, std::string& o)
    {
        return model_merge_any(m, a, o, true);
    }
    bool model_merge(Model& m, const Args& a, std::string& o)
    {
        return model_merge_any(m, a, o, false);
    }
    bool expandable(const Model& m, const Node* e)
    {
        if (!e || !whole(*e))
            return false;
        for (const auto& t : m.reg)
            if (!whole(t.second))
                return false;
        return true;
    }
    bool model_expand_any(Model& m, const Args& a, std::string& o, bool keep)
    {
        auto e = at(m, a.n(0), a.n(1), p_any);
        if (!expandable(m, e))
            return none(o);
        try {
            Node r = oracle::expand(*e, m.reg);
            o = !keep ? r.text() : r.absent() ? "none" : "ok";
            if (keep && !r.absent())
                m.slot[a.n(2) % Slots] = r;
        } catch (const oracle::Circular& x) {
            o = "throws Error: " + x.what;
        } catch (const oracle::Unknown&) {
            return false;
        }
        return true;
    }
    bool model_expandto(Model& m, const Args& a, std::string& o)
    {
        return model_expand_any(m, a, o, true);
    }
    bool model_expand(Model& m, const Args& a, std::string& o)
    {
        return model_expand_any(m, a, o, false);
    }
    bool model_expandtwice(Model& m, const Args& a, std::string& o)
    {
        auto e = at(m, a.n(0), a.n(1), p_any), f = at(m, a.n(2), a.n(3), p_any);
        if (!expandable(m, e) || !expandable(m, f))
            return none(o);
        try {
            try {
                o = oracle::expand(*e, m.reg).text();
            } catch (const oracle::Circular&) {
                o = "circular";
            }
            o += " then " + oracle::expand(*f, m.reg).text();
        } catch (const oracle::Circular& x) {
            o = "throws Error: " + x.what;
        } catch (const oracle::Unknown&) {
            return false;
        }
        return true;
    }
    bool model_isexpandable(Model& m, const Args& a, std::string& o)
    {
        auto e = at(m, a.n(0), a.n(1), p_any);
        if (!e || !whole(*e))
            return none(o);
        o = T(oracle::expandable(*e));
        return true;
    }
    bool model_print(Model& m, const Args& a, std::string& o)
    {
        auto e = at(m, a.n(0), a.n(1), p_any);
        if (!e || !printable(*e))
            return none(o);
        o = sim::quote(oracle::print(*e, static_cast<int>(a.n(1) % 3)));
        return true;
    }
    bool model_sinkprint(Model& m, const Args& a, std::string& o)
    {
        auto e = at(m, a.n(0), a.n(1), p_any);
        if (!e || !printable(*e))
            return none(o);
        o = sim::quote(oracle::print(*e, 0));
        return true;
    }
    bool model_eq(Model& m, const Args& a, std::string& o)
    {
        auto e = at(m, a.n(0), a.n(1), p_any), f = at(m, a.n(2), a.n(3), p_any);
        if (!e || !f || !whole(*e) || !whole(*f))
            return none(o);
        const bool eq = oracle::same(*e, *f);
        o = T(eq + 2 * !eq + 4);
        return true;
    }
    bool model_equal(Model& m, const Args& a, std::string& o)
    {
        auto e = at(m, a.n(0), a.n(1), p_any), f = at(m, a.n(2), a.n(3), p_any);
        if (!e || !f || !whole(*e) || !whole(*f) || e->type != f->type)
            return none(o);
        try {
            o = T(oracle::same_document(*e, *f, { "sourceMap" }, {})
                + 2 * oracle::same_document(*e, *f, { "default", "samples" }, { "id" }));
        } catch (const oracle::Unknown&) {
            return false;
        }
        return true;
    }
    std::vector<std::string> names(const std::vector<const Node*>& v)
    {
        std::vector<std::string> o;
        for (auto n : v)
            o.push_back(std::string(type_name(n->type)) + ":" + oracle::element(*n) + " ");
        return o;
    }
    std::string joined(const std::vector<std::string>& v, std::size_t n = ~std::size_t(0))
    {
        std::string o;
        for (std::size_t i = 0; i < v.size() && i < n; ++i)
            o += v[i];
        return o;
    }
    bool model_iterate(Model& m, const Args& a, std::string& o)
    {
        auto e = at(m, a.n(0), a.n(1), p_any);
        if (!e)
            return none(o);
        o = joined(names(oracle::recursive(*e)));
        return true;
    }
    bool has_empty_kid(const Node& n)
    {
        for (const auto& k : n.kids)
            if (k.empty)
                return true;
        return false;
    }
    bool model_children(Model& m, const Args& a, std::string& o)
    {
        auto e = at(m, a.n(0), a.n(1), p_container);
        if (!e || has_empty_kid(*e))
            return none(o);
        o = joined(names(oracle::children(*e)));
        return true;
    }
    bool model_filter(Model& m, const Args& a, std::string& o)
    {
        auto e = at(m, a.n(0), a.n(1), p_any);
        if (!e)
            return none(o);
        const std::string want = filtered_name(a.n(1));
        o.clear();
        for (auto n : oracle::recursive(*e))
            if (oracle::element(*n) == want)
                o += n->text() + " ";
        if (o.empty())
            o = "none";
        return true;
    }
    bool model_typeof(Model& m, const Args& a, std::string& o)
    {
        auto e = at(m, a.n(0), a.n(1), p_any);
        if (!e)
            return none(o);
        static const std::string order = "ZHSNBAMOERXPL";
        o = T(static_cast<std::int64_t>(order.find(e->type)) * 10 + (e->type == 'S') + 2 * (e->type == 'O'));
        return true;
    }
    bool model_key(Model& m, const Args& a, std::string& o)
    {
        auto e = a.n(1) % 2 ? at(m, a.n(0), a.n(1), p_extended_key) : nullptr;
        if (!e)
            e = at(m, a.n(0), a.n(1), p_member);
        if (!e || !all_merge(*e))
            return none(o);
        try {
            o = sim::quote(oracle::key(*e));
        } catch (const oracle::Logic& x) {
            o = "throws LogicError: " + x.what;
        }
        return true;
    }
    bool model_byname(Model& m, const Args& a, std::string& o)
    {
        auto e = at(m, a.n(0), a.n(1), p_object);
        if (!e || !named_members(*e))
            return none(o);
        auto r = oracle::member_by_key(*e, a.s(2));
        o = r ? r->text() : "_";
        return true;
    }
    bool model_compare(Model& m, const Args& a, std::string& o)
    {
        auto e = at(m, a.n(0), a.n(1), p_any);
        if (!e || e->empty || (e->type == 'M' && (e->kids[1].absent() || e->kids[1].empty)))
            return none(o);
        o = T(oracle::compares(*e, a.s(2)));
        return true;
    }
    bool model_comparekey(Model& m, const Args& a, std::string& o)
    {
        auto e = at(m, a.n(0), a.n(1), p_member);
        if (!e || e->kids[0].absent() || e->kids[0].empty)
            return none(o);
        if (a.n(1) % 16 == 15) {
            o = "throws LogicError: Fallback impl - behavioration for Base class IElement is not defined";
            return true;
        }
        const auto& k = e->kids[0];
        o = T(a.n(1) % 4 == 1 && k.type == 'S' ? true : oracle::compares(k, a.s(2)));
        return true;
    }
    bool model_values(Model& m, const Args& a, std::string& o)
    {
        auto e = at(m, a.n(0), a.n(1), p_any), f = at(m, a.n(2), a.n(3), p_any);
        if (!e || !f || !whole(*e) || !whole(*f))
            return none(o);
        if (e->type != f->type || e->empty || f->empty) {
            o = "none";
            return true;
        }
        Node x, y;
        x.type = y.type = e->type;
        x.scalar = e->scalar;
        x.kids = e->kids;
        y.scalar = f->scalar;
        y.kids = f->kids;
        const bool eq = oracle::same(x, y);
        o = T(eq + 2 * !eq + 4 + 8 + 16 + 32 + 64) + y.text();
        return true;
    }
    bool model_info(Model& m, const Args& a, std::string& o)
    {
        auto e = at(m, a.n(0), a.n(1), p_any);
        if (!e || !whole(*e))
            return none(o);
        auto text_of = [e](const char* key) {
            auto d = oracle::info(e->meta, key);
            return d && d->type == 'S' ? d->text() : std::string("_");
        };
        const bool fixed = oracle::type_attribute(*e, "fixed") || oracle::type_attribute(*e, "a type attribute that is quite long");
        auto v = oracle::info(e->attrs, "variable");
        const bool var = v && v->type == 'B' && v->scalar == "1";
        o = text_of("description") + T(oracle::literal(*e) + 2 * fixed + 4 * var) + text_of("title");
        return true;
    }
    bool model_value(Model& m, const Args& a, std::string& o)
    {
        auto e = at(m, a.n(0), a.n(1), a.n(1) % 3 ? p_samples : p_any);
        if (!e || !whole(*e))
            return none(o);
        auto r = oracle::value(*e);
        o = r ? r->text() : "_";
        return true;
    }
    bool model_mixin(Model& m, const Args& a, std::string& o)
    {
        auto e = at(m, a.n(0), a.n(1), p_resolved);
        if (!e || !whole(*e))
            return none(o);
        const char want = a.n(2) % 2 ? 'A' : 'O';
        const Node& r = *oracle::info(e->attrs, "resolved");
        o.clear();
        auto fetch = [&](const Node& n) {
            if (n.type != want)
                return false;
            for (const auto& k : n.kids)
                o += k.text() + " ";
            return true;
        };
        bool ok = true;
        if (r.type == 'X') {
            for (const auto& k : r.kids)
                ok = ok && fetch(k);
        } else
            ok = fetch(r);
        if (!ok)
            o = "throws Error: mixin base type should be the same as parent base type. objects should contain object mixins. arrays "
                "should contain array mixins";
        return true;
    }
    bool model_number(Model& m, const Args& a, std::string& o)
    {
        auto e = at(m, a.n(0), a.n(1), p_number);
        if (!e || !simple_number(e->scalar))
            return none(o);
        std::int64_t v = 0;
        for (char c : e->scalar) {
            if (c < '0' || c > '9')
                break;
            v = v * 10 + (c - '0');
        }
        o = T(v);
        return true;
    }
    bool model_makenumber(Model&, const Args& a, std::string& o)
    {
        const unsigned long long v
            = (a.n(0) % 2 ? 1234567890123456789ull : 7ull) - static_cast<unsigned long long>(a.n(1));
        const std::string s = a.n(1) % 2 ? "31415926535897932384626433832795" : "5";
        Node e, f, g;
        e.type = f.type = 'N';
        e.scalar = std::to_string(v);
        f.scalar = s;
        g = text_node(s);
        g.name = "a long enough element name";
        o = e.text() + f.text() + g.text();
        return true;
    }
    bool model_walk(Model& m, const Args& a, std::string& o)
    {
        auto e = at(m, a.n(0), a.n(1), p_any);
        if (!e)
            return none(o);
        o = oracle::element(*e) + T((oracle::info(e->meta, "id") != nullptr) + 2 * (oracle::info(e->attrs, "default") != nullptr) + 4 * e->empty)
            + "/" + T(static_cast<std::int64_t>(e->meta.size() + 10 * e->attrs.size()));
        return true;
    }
    bool model_dump(Model& m, const Args& a, std::string& o)
    {
        o = m.slot[a.n(0) % Slots].text();
        return true;
    }
    bool model_cancel(Model& m, const Args& a, std::string& o)
    {
        const auto how = a.n(3) % 3;
        auto e = at(m, a.n(0), a.n(1), how == 1 ? p_container : p_any);
        if (!e || (how == 1 && has_empty_kid(*e)))
            return none(o);
        const auto all = names(how == 1 ? oracle::children(*e) : oracle::recursive(*e));
        const auto k = static_cast<std::size_t>(a.n(2));
        o = T(k < all.size());
        if (how == 2)
            o += T(static_cast<std::int64_t>(std::min(k, all.size())));
        else
            o += joined(all, k);
        return true;
    }

    // ---------------------------------------------------------------- models of the text services
    std::string written(const apib::syntax::media_type& m)
    {
        if (m.type.empty() || m.subtype.empty())
            return "";
        std::string o = m.type + "/" + m.subtype + (m.suffix.empty() ? "" : "+" + m.suffix);
        for (const auto& p : m.parameters) {
            const std::string &k = std::get<0>(p), &v = std::get<1>(p);
            if (k.empty())
                continue;
            o += "; " + k + "=";
            bool plain = true;
            for (const char c : v)
                plain = plain && c > 32 && c != 127 && std::string("()<>@,;:\\\"/[]?=").find(c) == std::string::npos;
            if (plain) {
                o += v;
                continue;
            }
            o += '"';
            for (const char c : v)
                o += c == '\r' ? std::string("\\r") : c == '"' || c == '\\' ? std::string("\\") + c : std::string(1, c);
            o += '"';
        }
        return o;
    }
    bool model_sinkmedia(Model&, const Args& a, std::string& o)
    {
        o = sim::quote(written(media(a.n(1) * 6 + a.n(0))));
        return true;
    }
    bool model_media(Model&, const Args& a, std::string& o)
    {
        const auto m = media(a.n(0));
        const bool app = m.type == "application";
        o = sim::quote(written(m))
            + T((app && (m.suffix.empty() ? m.subtype : m.suffix) == "json") + 2 * (app && m.subtype == "schema" && m.suffix == "json"));
        return true;
    }
    bool model_index(Model&, const Args& a, std::string& o)
    {
        const std::string s = source(a.n(0));
        const auto rs = ranges(a.n(1), s.size());
        std::vector<std::size_t> character; // that each byte belongs to
        std::size_t n = 0;
        for (const char c : s) {
            n += !inside(c);
            character.push_back(n - 1);
        }
        character.push_back(n);
        mdp::CharactersRangeSet c;
        for (const auto& r : rs)
            c.push_back(mdp::CharactersRange(character[r.location], character[r.location + r.length] - character[r.location]));
        o = show(c) + " " + (aligned(s, rs) ? show(c) : "?") + " " + T(static_cast<std::int64_t>(!rs.empty()));
        return true;
    }
    bool model_lines(Model&, const Args& a, std::string& o)
    {
        const oracle::Lines idx(source(a.n(0)));
        const auto p = idx.place(static_cast<std::size_t>(a.n(1)) % 40, 1 + static_cast<std::size_t>(a.n(1)) % 7);
        o.clear();
        for (auto i : idx.starts)
            o += std::to_string(i) + ",";
        o += " " + T(static_cast<std::int64_t>(p.from_line)) + ":" + T(static_cast<std::int64_t>(p.from_column)) + "-"
            + T(static_cast<std::int64_t>(p.to_line)) + ":" + T(static_cast<std::int64_t>(p.to_column));
        return true;
    }
    bool model_keys(Model&, const Args& a, std::string& o)
    {
        static const char* const k[] = { "metadata", "httpTransaction", "typeAttributes", "messageBodySchema", "length", "hrefVariables" };
        o = sim::quote(k[a.n(0) % 6]);
        return true;
    }
    bool model_said(Model&, const Args&, std::string& o) // what was printed is read elsewhere
    {
        o = "ok";
        return true;
    }
    bool model_map(Model&, const Args& a, std::string& o)
    {
        const std::string s = source(a.n(0));
        std::string w;
        for (const auto& r : ranges(a.n(1), s.size()))
            w += s.substr(r.location, r.length);
        o = sim::quote(w);
        return true;
    }
    bool model_utf8(Model&, const Args& a, std::string& o)
    {
        std::int64_t n = 0;
        for (const char c : source(a.n(0)))
            n += (c & 0xc0) != 0x80;
        o = T(n) + T(true);
        return true;
    }
    bool model_section(Model&, const Args& a, std::string& o)
    {
        using namespace snowcrash;
        static const std::map<int, const char*> names = { { ModelSectionType, "model" }, { ModelBodySectionType, "model" },
            { RequestSectionType, "request" }, { RequestBodySectionType, "request" }, { ResponseSectionType, "response" },
            { ResponseBodySectionType, "response" }, { BodySectionType, "message-body" }, { DanglingBodySectionType, "message-body" },
            { SchemaSectionType, "message-schema" }, { DanglingSchemaSectionType, "message-schema" }, { HeadersSectionType, "headers" },
            { MSONMixinSectionType, "mixin" }, { MSONOneOfSectionType, "one of" } };
        const auto it = names.find(static_cast<int>(a.n(0) % 45));
        o = sim::quote(it == names.end() ? "section" : it->second);
        return true;
    }
    bool model_options(Model&, const Args& a, std::string& o)
    {
        const auto p = a.n(0) % 8;
        const bool json = a.n(1) % 2;
        const auto yaml = static_cast<std::int64_t>(DRAFTER_SERIALIZE_YAML);
        o = T(((p >> drafter_parse_options::NAME_REQUIRED) & 1) + 2 * ((p >> drafter_parse_options::SKIP_GEN_BODIES) & 1)
            + 4 * ((p >> drafter_parse_options::SKIP_GEN_BODY_SCHEMAS) & 1) + 8 * (a.n(0) % 2 && drafter_serialize_options::SOURCEMAPS_INCLUDED == 0)
            + 16 * (json ? static_cast<std::int64_t>(DRAFTER_SERIALIZE_JSON) : yaml) + 100 * yaml);
        return true;
    }
    bool model_annotation(Model&, const Args& a, std::string& o)
    {
        const auto r = plain_report(a.n(0)), q = plain_report(a.n(1));
        o = show(q.error);
        for (const auto* x : { &r, &q })
            for (const auto& w : x->warnings)
                o += " " + show(w);
        o += " " + show(q.error) + " " + show(q.error);
        return true;
    }

    // ---------------------------------------------------------------- the catalogue
    const std::vector<Op>& the_catalogue()
    {
        static const std::vector<Op> catalogue = {
        { "build", Edits, 9, gen_build, run_build, model_build },
        { "destroy", Edits, 1, gen_slot, run_destroy, model_destroy },
        { "clone", Edits, 5, gen_clone, run_clone, model_clone },
        { "swap", Edits, 1, [](Rng& r, Line& l) { gen_slot(r, l); gen_slot(r, l); }, run_swap, model_swap },
        { "assign", Edits, 2, gen_skd, run_assign, model_assign },
        { "push", Edits, 6, gen_push, run_push, model_push },
        { "nest", Edits, 1, gen_nest, run_nest, model_nest },
        { "many", Edits, 1, gen_many, run_many, model_many },
        { "insert", Edits, 4, gen_push, run_insert, model_insert },
        { "erase", Edits, 3, gen_erase, run_erase, model_erase },
        { "addmember", Edits, 5, gen_addmember, run_addmember, model_addmember },
        { "find", Reads, 3, gen_find, run_find, model_find },
        { "set", Edits, 4, gen_skt, run_set, model_set },
        { "name", Edits, 2, gen_name, run_name, model_name },
        { "mvalue", Edits, 2, gen_skn, run_mvalue, model_mvalue },
        { "mclaim", Edits, 1, gen_skd, run_mclaim, model_mclaim },
        { "iset", Edits, 5, gen_iset, run_iset, model_iset },
        { "ierase", Edits, 2, gen_ikey, run_ierase, model_ierase },
        { "iclaim", Edits, 2, gen_ikey, run_iclaim, model_iclaim },
        { "iclear", Edits, 1, gen_ikey, run_iclear, model_iclear },
        { "icopy", Edits, 4, gen_icopy, run_icopy, model_icopy },
        { "append", Edits, 2, gen_append, run_append, model_append },
        { "mergeto", Edits, 4, gen_skd, run_mergeto, model_mergeto },
        { "expandto", Edits | RegOp, 4, gen_skd, run_expandto, model_expandto },
        { "merge", Reads, 5, gen_sk, run_merge, model_merge },
        { "expand", Reads | RegOp, 6, gen_sk, run_expand, model_expand },
        { "expandtwice", Reads | RegOp, 2, gen_sksk, run_expandtwice, model_expandtwice },
        { "isexpandable", Reads, 2, gen_sk, run_isexpandable, model_isexpandable },
        { "regadd", Edits | RegOp, 6, gen_regadd, run_regadd, model_regadd },
        { "regfind", Reads | RegOp, 3, gen_type, run_regfind, model_regfind },
        { "regremove", Edits | RegOp, 3, gen_type, run_regremove, model_regremove },
        { "regclear", Edits | RegOp, 1, gen_none, run_regclear, model_regclear },
        { "regnew", Edits | RegOp, 1, gen_none, run_regnew, model_regnew },
        { "root", Reads | RegOp, 4, gen_type, run_root, model_root },
        { "print", Reads, 4, gen_sk, run_print, model_print },
        { "eq", Reads, 3, gen_sksk, run_eq, model_eq },
        { "equal", Reads, 3, gen_sksk, run_equal, model_equal },
        { "iterate", Reads, 3, gen_sk, run_iterate, model_iterate },
        { "children", Reads, 2, gen_sk, run_children, model_children },
        { "filter", Reads, 3, gen_sk, run_filter, model_filter },
        { "typeof", Reads, 2, gen_sk, run_typeof, model_typeof },
        { "key", Reads, 5, gen_sk, run_key, model_key },
        { "byname", Reads, 2, gen_find, run_byname, model_byname },
        { "compare", Reads, 2, gen_skt, run_compare, model_compare },
        { "comparekey", Reads, 2, gen_skt, run_comparekey, model_comparekey },
        { "values", Reads, 4, gen_sksk, run_values, model_values },
        { "vclaim", Edits, 2, gen_skd, run_vclaim, model_vclaim },
        { "info", Reads, 3, gen_sk, run_info, model_info },
        { "value", Reads, 2, gen_sk, run_value, model_value },
        { "mixin", Reads, 2, gen_skd, run_mixin, model_mixin },
        { "number", Reads | LogOp, 2, gen_sk, run_number, model_number },
        { "makenumber", Reads | Text, 2, gen_seed2, run_makenumber, model_makenumber },
        { "walk", Reads, 2, gen_sk, run_walk, model_walk },
        { "dump", Reads, 2, gen_slot, run_dump, model_dump },
        { "cancel", Reads | Cancels, 3, gen_cancel, run_cancel, model_cancel },
        { "sinkprint", Reads | Cancels, 3, gen_sinkfail, run_sinkprint, model_sinkprint },
        { "sinkmedia", Reads | Text | Cancels, 3, gen_sinkfail, run_sinkmedia, model_sinkmedia },
        { "media", Reads | Text, 4, gen_seed, run_media, model_media },
        { "index", Reads | Text, 3, gen_seed2, run_index, model_index },
        { "map", Reads | Text, 3, gen_seed2, run_map, model_map },
        { "lines", Reads | Text, 3, gen_seed2, run_lines, model_lines },
        { "utf8", Reads | Text, 2, gen_seed2, run_utf8, model_utf8 },
        { "section", Reads | Text, 1, gen_seed, run_section, model_section },
        { "keys", Reads | Text, 1, gen_seed, run_keys, model_keys },
        { "options", Reads | Text, 1, gen_seed2, run_options, model_options },
        { "regex", Reads | Text, 4, gen_regex, run_regex, model_regex },
        { "capture", Reads | Text, 5, gen_regex, run_capture, model_capture },
        { "capture1", Reads | Text, 3, gen_regex, run_capture1, model_capture1 },
        { "annotation", Reads | Text, 3, gen_seed2, run_annotation, model_annotation },
        { "report", Reads | Text | Stderr, 3, gen_seed2, run_report, model_said },
        { "reportel", Reads | Text | Stderr, 3, gen_seed2, run_reportel, model_said },
        { "md", Edits | Text, 3, gen_md, run_md, model_md },
        { "mdcopy", Edits | Text, 3, gen_md, run_mdcopy, model_mdcopy },
        { "mdassign", Edits | Text, 3, gen_md2, run_mdassign, model_mdassign },
        { "mdpush", Edits | Text, 3, gen_md2, run_mdpush, model_mdpush },
        { "mderase", Basic | Text, 2, gen_md3, run_mderase, model_mderase },
        { "mdset", Edits | Text, 3, gen_md3, run_mdset, model_mdset },
        { "mdparent", Edits | Text, 2, gen_md3, run_mdparent, model_mdparent },
        { "ranges", Edits | Text, 3, gen_md, run_ranges, model_ranges },
        { "log", Reads | Text | LogOp, 3, gen_log, run_log, nullptr },
        };
        return catalogue;
    }
}

const std::vector<Op>& ops()
{
    return the_catalogue();
}
const Op* find_op(const std::string& name)
{
    for (const auto& o : the_catalogue())
        if (name == o.name)
            return &o;
    return nullptr;
}
const Op& pick_op(Rng& r, unsigned with, unsigned without)
{
    int total = 0;
    for (const auto& o : the_catalogue())
        if ((o.flags & with) && !(o.flags & without))
            total += o.weight;
    int k = static_cast<int>(r.below(static_cast<std::uint64_t>(total)));
    for (const auto& o : the_catalogue())
        if ((o.flags & with) && !(o.flags & without)) {
            k -= o.weight;
            if (k < 0)
                return o;
        }
    return the_catalogue()[0];
}

std::string perform(World& w, const Op& op, const Args& a)
{
    try {
        return op.run(w, a);
    } catch (const std::bad_alloc&) {
        throw;
    } catch (const LogicError& e) {
        HarnessScope h;
        return std::string("throws LogicError: ") + e.what();
    } catch (const snowcrash::Error& e) {
        HarnessScope h;
        return std::string("throws Error: ") + e.message;
    }
}

Model initial_model()
{
    Model m;
    for (const auto& p : { std::make_pair("boolean", 'B'), std::make_pair("number", 'N'), std::make_pair("string", 'S'),
             std::make_pair("array", 'A'), std::make_pair("object", 'O'), std::make_pair("enum", 'E'),
             std::make_pair("null", 'Z') }) {
        Node n;
        n.type = p.second;
        n.empty = true;
        m.reg[p.first] = n;
    }
    return m;
}
void set_up(World& w, const sim::Plan& plan)
{
    {
        HarnessScope h;
        wide_names = false;
        known_names();
        for (const auto& l : plan.lines)
            for (const auto& a : l.args)
                if (a.find("Type ") != std::string::npos || a.find("The data structure with number ") != std::string::npos)
                    wide_names = true;
        known_names();
    }
    w.reg = refract::make_unique<Registry>();
}

std::string dump(const World& w)
{
    std::string o;
    for (const auto& e : w.slot)
    {
        text_of(e.get(), o);
        o += '\n';
    }
    for (const auto& n : known_names())
        if (auto e = w.reg ? static_cast<const Registry&>(*w.reg).find(n) : nullptr)
        {
            o += n;
            o += ": ";
            text_of(e, o);
            o += '\n';
        }
    for (const auto& n : w.md)
        o += (n ? show(*n) : "_") + "\n";
    for (const auto& r : w.ranges)
        o += show(r) + "\n";
    return o;
}
std::string dump(const Model& m)
{
    std::string o;
    for (const auto& e : m.slot)
    {
        e.text(o);
        o += '\n';
    }
    for (const auto& n : known_names()) {
        auto it = m.reg.find(n);
        if (it != m.reg.end())
        {
            o += n;
            o += ": ";
            it->second.text(o);
            o += '\n';
        }
    }
    for (const auto& n : m.md)
        o += (n.there ? show(n) : "_") + "\n";
    for (const auto& r : m.ranges)
        o += show(r) + "\n";
    return o;
}

std::string source_of(std::int64_t seed)
{
    return source(seed);
}

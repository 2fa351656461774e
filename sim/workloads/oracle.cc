#include "oracle.h"

#include <algorithm>

namespace
{
    using Infos = std::vector<std::pair<std::string, Node> >;
    using oracle::element;
    using oracle::info;
    using oracle::set_info;

    Node text(const std::string& s)
    {
        Node n;
        n.type = 'S';
        n.scalar = s;
        return n;
    }
    bool iterable(const Node& n)
    {
        return n.container();
    }
    bool named(const Node& n)
    {
        return !oracle::reserved(element(n));
    }

    bool same_infos(const Infos& a, const Infos& b)
    {
        if (a.size() != b.size())
            return false;
        for (std::size_t i = 0; i < a.size(); ++i)
            if (a[i].first != b[i].first || !oracle::same(a[i].second, b[i].second))
                return false;
        return true;
    }
    bool same_value(const Node& a, const Node& b)
    {
        if (a.scalar != b.scalar || a.kids.size() != b.kids.size())
            return false;
        for (std::size_t i = 0; i < a.kids.size(); ++i) {
            if (a.kids[i].absent() || b.kids[i].absent()) {
                if (a.kids[i].absent() != b.kids[i].absent())
                    return false;
            } else if (!oracle::same(a.kids[i], b.kids[i]))
                return false;
        }
        return true;
    }
}

bool oracle::reserved(const std::string& s)
{
    static const std::set<std::string> k = { "array", "boolean", "enum", "extend", "generic", "member", "null", "number",
        "object", "option", "ref", "select", "string" };
    return k.count(s) != 0;
}
std::string oracle::element(const Node& n)
{
    return n.name.empty() ? type_name(n.type) : n.name;
}
const Node* oracle::info(const Infos& v, const std::string& key)
{
    for (const auto& e : v)
        if (e.first == key)
            return &e.second;
    return nullptr;
}
void oracle::set_info(Infos& v, const std::string& key, const Node& n)
{
    for (auto& e : v)
        if (e.first == key) {
            e.second = n;
            return;
        }
    v.emplace_back(key, n);
}

bool oracle::same(const Node& a, const Node& b)
{
    return a.type == b.type && a.empty == b.empty && same_infos(a.attrs, b.attrs) && same_infos(a.meta, b.meta)
        && (a.empty || same_value(a, b));
}

bool oracle::same_document(
    const Node& a, const Node& b, const std::set<std::string>& attributes, const std::set<std::string>& meta)
{
    auto sorted = [](const Infos& v, const std::set<std::string>& without) {
        Infos o;
        std::set<std::string> keys;
        for (const auto& e : v)
            if (!without.count(e.first)) {
                if (!keys.insert(e.first).second)
                    throw Unknown();
                o.push_back(e);
            }
        std::stable_sort(
            o.begin(), o.end(), [](const Infos::value_type& l, const Infos::value_type& r) { return l.first < r.first; });
        return o;
    };
    return a.type == b.type && a.empty == b.empty && element(a) == element(b)
        && same_infos(sorted(a.meta, meta), sorted(b.meta, meta))
        && same_infos(sorted(a.attrs, attributes), sorted(b.attrs, attributes)) && (a.empty || same_value(a, b));
}

namespace
{
    void visit(const Node& n, std::vector<const Node*>& o)
    {
        if (n.absent())
            return;
        o.push_back(&n);
        if (!n.empty && (iterable(n) || n.type == 'M'))
            for (const auto& k : n.kids)
                visit(k, o);
    }
}
std::vector<const Node*> oracle::recursive(const Node& n)
{
    std::vector<const Node*> o;
    visit(n, o);
    return o;
}
std::vector<const Node*> oracle::children(const Node& n)
{
    std::vector<const Node*> o;
    if (!n.empty && iterable(n))
        for (const auto& k : n.kids)
            if (!k.absent())
                o.push_back(&k);
    return o;
}

bool oracle::type_attribute(const Node& n, const std::string& name)
{
    auto a = info(n.attrs, "typeAttributes");
    if (!a || a->type != 'A')
        return false;
    for (const auto& k : a->kids)
        if (k.type == 'S' && k.scalar == name)
            return true;
    return false;
}

namespace
{
    template <char T>
    const Node* sample(const Node& n)
    {
        auto s = info(n.attrs, "samples");
        if (!s || s->type != 'A' || s->kids.empty() || s->kids[0].type != T)
            return nullptr;
        return &s->kids[0];
    }
    template <char T>
    const Node* fallback(const Node& n)
    {
        auto d = info(n.attrs, "default");
        return d && d->type == T ? d : nullptr;
    }
}
template <char T>
const Node* plain_value(const Node& n)
{
    if (!n.empty)
        return &n;
    if (auto s = sample<T>(n))
        return s;
    if (auto d = fallback<T>(n))
        return d;
    if (oracle::type_attribute(n, "nullable"))
        return nullptr;
    return &n;
}
const Node* oracle::string_value(const Node& n)
{
    return plain_value<'S'>(n);
}
const Node* oracle::value(const Node& n)
{
    switch (n.type) {
        case 'S':
            return plain_value<'S'>(n);
        case 'N':
            return plain_value<'N'>(n);
        case 'B':
            return plain_value<'B'>(n);
        case 'A':
            return plain_value<'A'>(n);
        case 'O':
            return plain_value<'O'>(n);
        case 'E':
            return enum_value(n);
        default:
            return nullptr;
    }
}
const Node* oracle::enum_value(const Node& n)
{
    if (auto s = sample<'E'>(n))
        return enum_value(*s);
    if (auto d = fallback<'E'>(n))
        return enum_value(*d);
    if (!n.empty && !n.kids.empty() && !n.kids[0].absent())
        return &n.kids[0];
    auto e = info(n.attrs, "enumerations");
    if (e && e->type == 'A' && !e->empty)
        for (const auto& k : e->kids) {
            if (k.type == 'E')
                if (auto v = enum_value(k))
                    return v;
            if (!k.empty)
                return &k;
        }
    return nullptr;
}
std::string oracle::key(const Node& m)
{
    if (m.kids.empty() || m.kids[0].absent() || m.kids[0].empty)
        return "";
    const Node& k = m.kids[0];
    if (k.type == 'S')
        return k.scalar;
    if (k.type == 'X') {
        Node x = merge(k);
        if (x.type == 'S') {
            if (!x.empty && !x.scalar.empty())
                return x.scalar;
            auto v = string_value(x);
            return v && !v->empty ? v->scalar : "";
        }
    }
    return "";
}
bool oracle::compares(const Node& n, const std::string& s)
{
    if (n.absent())
        return false;
    if (n.type == 'S')
        return (n.empty ? std::string() : n.scalar) == s;
    if (n.type == 'M')
        return n.kids.size() == 2 && compares(n.kids[1], s);
    return false;
}
const Node* oracle::member_by_key(const Node& o, const std::string& name)
{
    for (const auto& k : o.kids)
        if (k.type == 'M' && !k.kids.empty() && compares(k.kids[0], name))
            return &k;
    return nullptr;
}
bool oracle::literal(const Node& n)
{
    if (n.type == 'Z')
        return false;
    if (!n.empty && (n.type == 'S' || n.type == 'N' || n.type == 'B'))
        return true;
    return type_attribute(n, "fixed");
}

// ------------------------------------------------------------------------------------- printing
namespace
{
    std::string pad(int n)
    {
        return std::string(static_cast<std::size_t>(2 * n), ' ');
    }
    void print(const Node& n, int i, std::string& o)
    {
        o += pad(i) + "+ " + element(n) + "\n";
        ++i;
        o += pad(i) + "- <meta>\n";
        for (const auto& m : n.meta) {
            o += pad(i + 1) + "- `" + m.first + "`\n";
            print(m.second, i + 1, o);
        }
        o += pad(i) + "- <attr>\n";
        for (const auto& a : n.attrs)
            if (a.first != "sourceMap") {
                o += pad(i + 1) + "- `" + a.first + "`\n";
                print(a.second, i + 1, o);
            }
        auto scalar = [&](const char* kind, const std::string& l, const std::string& r) {
            o += pad(i) + "- " + kind + " " + (n.empty ? "<empty>" : l + n.scalar + r) + "\n";
        };
        auto kids = [&](const char* kind) {
            o += pad(i) + "- " + kind + "Element\n";
            if (!n.empty)
                for (const auto& k : n.kids)
                    print(k, i + 1, o);
        };
        switch (n.type) {
            case 'Z':
                o += pad(i) + "- Null\n";
                break;
            case 'H':
                o += pad(i) + "- Holder[" + element(n) + "]\n";
                print(n.kids[0], i + 1, o);
                break;
            case 'S':
                scalar("String", "\"", "\"");
                break;
            case 'N':
                scalar("Number", "", "");
                break;
            case 'B':
                scalar("Boolean", "", "");
                break;
            case 'R':
                scalar("RefElement", "&[", "]");
                break;
            case 'M':
                kids("Member");
                break;
            case 'E':
                o += pad(i) + "- EnumElement \n";
                if (!n.empty)
                    print(n.kids[0], i + 1, o);
                break;
            case 'A':
                kids("Array");
                break;
            case 'O':
                kids("Object");
                break;
            case 'X':
                kids("Extend");
                break;
            case 'P':
                kids("Option");
                break;
            case 'L':
                kids("Select");
                break;
        }
    }
}
std::string oracle::print(const Node& n, int indent)
{
    std::string o;
    ::print(n, indent, o);
    return o;
}

// ------------------------------------------------------------------------------------- merging
namespace
{
    bool has_key(const Node& n, const std::string& k)
    {
        return n.type == 'M' && !n.empty && !n.kids.empty() && n.kids[0].type == 'S' && !n.kids[0].empty && n.kids[0].scalar == k;
    }
    // merging also takes keys without a value for the same, and no other kind of key
    bool same_key(const Node& n, const std::string& k)
    {
        return n.type == 'M' && !n.kids.empty() && n.kids[0].type == 'S' && (n.kids[0].empty ? k.empty() : n.kids[0].scalar == k);
    }
    void merge_object(Node& to, const Node& from)
    {
        for (const auto& m : from.kids) {
            to.empty = false;
            auto it = to.kids.end();
            if (m.type == 'M') {
                const auto k = m.kids[0].empty ? std::string() : m.kids[0].scalar;
                if (m.kids[0].type == 'S')
                it = std::find_if(to.kids.begin(), to.kids.end(), [&k](const Node& n) {
                    if (n.type == 'L')
                        for (const auto& p : n.kids)
                            for (const auto& x : p.kids)
                                if (same_key(x, k))
                                    return true;
                    return same_key(n, k);
                });
            } else if (m.type == 'R')
                it = std::find_if(to.kids.begin(), to.kids.end(), [&m](const Node& n) { return n.type == 'R' && n.scalar == m.scalar; });
            if (it == to.kids.end())
                oracle::object_push(to, m);
            else
                *it = m;
        }
    }
    void merge_into(Node& to, const Node& from)
    {
        for (const auto& e : from.meta)
            if (e.first != "id" && e.first != "prefix" && e.first != "namespace")
                set_info(to.meta, e.first, e.second);
        for (const auto& e : from.attrs)
            if (to.type != 'E' || e.first != "enumerations")
                set_info(to.attrs, e.first, e.second);
        if (to.type == 'E') {
            auto more = info(from.attrs, "enumerations");
            if (more && !more->kids.empty()) {
                auto there = const_cast<Node*>(info(to.attrs, "enumerations"));
                if (!there)
                    set_info(to.attrs, "enumerations", *more);
                else
                    for (const auto& e : more->kids) {
                        auto it = std::find_if(there->kids.begin(), there->kids.end(), [&e](const Node& n) { return oracle::same(n, e); });
                        if (it != there->kids.end())
                            there->kids.erase(it);
                        there->kids.push_back(e);
                    }
            }
        }
        if (from.empty)
            return;
        if (to.type == 'O')
            merge_object(to, from);
        else if (to.type == 'A') {
            if (!to.empty)
                to.kids.insert(to.kids.end(), from.kids.begin(), from.kids.end());
        } else {
            to.scalar = from.scalar;
            to.kids = from.kids;
            to.empty = false;
        }
    }
}
void oracle::object_push(Node& o, const Node& kid)
{
    if (kid.type == 'M' && !kid.empty && !kid.kids.empty() && kid.kids[0].type == 'S' && !kid.kids[0].empty)
        for (auto it = o.kids.begin(); it != o.kids.end(); ++it)
            if (has_key(*it, kid.kids[0].scalar)) {
                o.kids.erase(it);
                break;
            }
    o.kids.push_back(kid);
}
Node oracle::merge(const Node& x)
{
    Node r;
    for (const auto& k : x.kids) {
        if (r.absent()) {
            r = k;
            continue;
        }
        if (k.type != r.type)
            throw Logic{ "Can not merge different types of elements" };
        switch (r.type) {
            case 'M':
            case 'X':
            case 'Z':
                throw Logic{ "Unappropriate kind of element to merging" };
            case 'H':
            case 'P':
            case 'L':
                throw Logic{ "Element has no implemented merging" };
        }
        merge_into(r, k);
    }
    return r;
}

// ------------------------------------------------------------------------------------- expansion
bool oracle::expandable(const Node& n)
{
    if (n.absent())
        return false;
    if (named(n) || n.type == 'R')
        return true;
    if (n.type == 'E') {
        if (!n.empty && expandable(n.kids[0]))
            return true;
        auto e = info(n.attrs, "enumerations");
        return e && expandable(*e);
    }
    if (!n.empty && (iterable(n) || n.type == 'M'))
        for (const auto& k : n.kids)
            if (expandable(k))
                return true;
    return false;
}

namespace
{
    struct Expander {
        const oracle::Types& types;
        std::vector<std::string> open;

        const Node* find(const std::string& k) const
        {
            auto it = types.find(k);
            return it == types.end() ? nullptr : &it->second;
        }
        bool is_open(const std::string& k) const
        {
            return std::find(open.begin(), open.end(), k) != open.end();
        }
        const Node* root(const std::string& k) const
        {
            std::vector<const Node*> seen;
            const Node* at = find(k);
            while (at && named(*at)) {
                const Node* next = find(element(*at));
                if (!next || next == at)
                    break;
                if (std::find(seen.begin(), seen.end(), next) != seen.end())
                    throw oracle::Unknown(); // of a closed chain any type may be given
                seen.push_back(at);
                at = next;
            }
            return at;
        }
        Node or_copy(const Node& n)
        {
            if (n.absent())
                return n;
            Node r = expand(n);
            return r.absent() ? n : r;
        }
        Node members(const Node& n)
        {
            Node o;
            o.type = n.type;
            o.empty = n.empty;
            if (!n.empty) {
                o.scalar = n.scalar;
                for (const auto& k : n.kids) {
                    if (n.type == 'O')
                        oracle::object_push(o, or_copy(k));
                    else
                        o.kids.push_back(or_copy(k));
                }
            }
            o.attrs = n.attrs;
            o.meta = n.meta;
            return o;
        }
        static void erase(Infos& v, const std::string& key)
        {
            v.erase(std::remove_if(v.begin(), v.end(), [&key](const Infos::value_type& e) { return e.first == key; }), v.end());
        }
        Node inheritance(const std::string& name)
        {
            Node x;
            x.type = 'X';
            x.empty = true;
            std::vector<std::string> seen;
            std::string en = name;
            for (const Node* p = find(en); p && !oracle::reserved(en); en = element(*p), p = find(en)) {
                if (std::find(seen.begin(), seen.end(), en) != seen.end()) {
                    Node none;
                    none.type = 'X';
                    none.empty = true;
                    return none;
                }
                seen.push_back(en);
                Node c = *p;
                c.name.clear();
                erase(c.meta, "id");
                set_info(c.meta, "ref", text(en));
                x.kids.insert(x.kids.begin(), c);
                x.empty = false;
            }
            return x;
        }
        Node named_type(const Node& n)
        {
            const auto name = element(n);
            if (is_open(name)) {
                const Node* r = root(name);
                if (!r)
                    return n;
                Node o;
                o.type = r->type;
                o.empty = true;
                o.meta = r->meta;
                erase(o.meta, "id");
                o.attrs = r->attrs;
                set_info(o.meta, "ref", text(name));
                return o;
            }
            open.push_back(name);
            Node x = members(inheritance(name));
            open.pop_back();
            auto id = info(n.meta, "id");
            if (id && !id->empty)
                set_info(x.meta, "id", *id);
            Node origin = members(n);
            erase(origin.meta, "id");
            x.empty = false;
            x.kids.push_back(origin);
            return x;
        }
        Node expand(const Node& n)
        {
            switch (n.type) {
                case 'H':
                case 'Z':
                    return Node();
                case 'S':
                case 'N':
                case 'B':
                    return named(n) ? named_type(n) : Node();
                case 'R': {
                    Node r = n;
                    if (n.scalar.empty())
                        return r;
                    if (is_open(n.scalar))
                        throw oracle::Circular{ "named type '" + n.scalar + "' is circularly referencing itself by mixin" };
                    open.push_back(n.scalar);
                    if (auto t = find(n.scalar)) {
                        Node e = or_copy(*t);
                        auto id = info(e.meta, "id");
                        if (id && !id->empty) {
                            set_info(e.meta, "ref", Node(*id));
                            erase(e.meta, "id");
                        }
                        set_info(r.attrs, "resolved", e);
                    }
                    open.pop_back();
                    return r;
                }
                case 'E': {
                    if (named(n))
                        return named_type(n);
                    Node o;
                    o.type = 'E';
                    o.empty = n.empty;
                    if (!n.empty)
                        o.kids.push_back(or_copy(n.kids[0]));
                    o.meta = n.meta;
                    for (const auto& a : n.attrs) {
                        if (a.first == "enumerations") {
                            Node e;
                            e.type = 'A';
                            for (const auto& k : a.second.kids)
                                e.kids.push_back(or_copy(k));
                            set_info(o.attrs, "enumerations", e);
                        } else
                            set_info(o.attrs, a.first, a.second);
                    }
                    return o;
                }
                case 'L': {
                    if (!oracle::expandable(n))
                        return Node();
                    Node o;
                    o.type = 'L';
                    o.meta = n.meta;
                    for (const auto& k : n.kids)
                        o.kids.push_back(or_copy(k));
                    return o;
                }
                case 'M': {
                    if (!oracle::expandable(n))
                        return Node();
                    Node o = n;
                    o.empty = false;
                    o.kids.clear();
                    for (const auto& k : n.kids)
                        o.kids.push_back(or_copy(k));
                    return o;
                }
            }
            if (!oracle::expandable(n))
                return Node();
            return named(n) ? named_type(n) : members(n);
        }
    };
}
Node oracle::expand(const Node& n, const Types& t)
{
    Expander e{ t, {} };
    return e.expand(n);
}
namespace oracle
{
    Lines::Lines(const std::string& text) : starts(1, 0)
    {
        for (const char c : text) {
            if ((static_cast<unsigned char>(c) & 0xc0) != 0x80)
                ++characters;
            if (c == '\n')
                starts.push_back(characters);
        }
    }
    Lines::Place Lines::place(std::size_t location, std::size_t length) const
    {
        Place p;
        // the line is the last that begins at or before the character
        for (std::size_t i = starts.size(); i > 0 && !p.from_line; --i)
            if (starts[i - 1] <= location) {
                p.from_line = i;
                p.from_column = location - starts[i - 1] + 1;
            }
        const std::size_t end = location + length;
        if (end > starts.back()) { // how long the last line is, is not known to those who ask
            p.to_line = starts.size();
            p.to_column = 1;
        } else if (end) // the place of the last character
            for (std::size_t i = starts.size(); i > 0 && !p.to_line; --i)
                if (starts[i - 1] <= end - 1) {
                    p.to_line = i;
                    p.to_column = end - starts[i - 1];
                }
        return p;
    }
    std::string place(const Lines& lines, std::size_t loc, std::size_t len)
    {
        const auto p = lines.place(loc, len);
        return "; line " + std::to_string(p.from_line) + ", column " + std::to_string(p.from_column) + " - line "
            + std::to_string(p.to_line) + ", column " + std::to_string(p.to_column);
    }
    std::string report_text(const Node& result, const std::string& source, bool lines, int error)
    {
        std::string o = "\n";
        if (!error)
            o += "OK.\n";
        const Lines index(source);
        for (const auto& k : result.kids) {
            if (k.name != "annotation")
                continue;
            if (auto c = info(k.meta, "classes"))
                if (c->kids.size() == 1)
                    o += c->kids[0].scalar + ": ";
            if (auto c = info(k.attrs, "code"))
                o += "(" + c->scalar + ")  ";
            o += k.scalar;
            if (auto m = info(k.attrs, "sourceMap"))
                if (m->kids.size() == 1) {
                    bool first = true;
                    for (const auto& p : m->kids[0].kids) {
                        if (lines)
                            o += place(index, std::stoul(p.kids[0].scalar), std::stoul(p.kids[1].scalar));
                        else
                            o += (first ? " :" : ";") + p.kids[0].scalar + ":" + p.kids[1].scalar;
                        first = false;
                    }
                }
            o += "\n";
        }
        return o;
    }
}

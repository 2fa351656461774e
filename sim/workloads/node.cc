#include "node.h"

using sim::Rng;

const char* type_name(char t)
{
    switch (t) {
        case 'Z': return "null";
        case 'H': return "";
        case 'S': return "string";
        case 'N': return "number";
        case 'B': return "boolean";
        case 'A': return "array";
        case 'E': return "enum";
        case 'M': return "member";
        case 'O': return "object";
        case 'R': return "ref";
        case 'X': return "extend";
        case 'P': return "option";
        case 'L': return "select";
    }
    return "";
}

namespace
{
    const char* hex = "0123456789abcdef";
    void put(std::string& o, const std::string& s)
    {
        o += '"';
        for (unsigned char c : s)
            if (c > 0x20 && c < 0x7f && c != '"' && c != '%')
                o += static_cast<char>(c);
            else {
                o += '%';
                o += hex[c >> 4];
                o += hex[c & 15];
            }
        o += '"';
    }
    void infos(std::string& o, char which, const std::vector<std::pair<std::string, Node> >& v)
    {
        if (v.empty())
            return;
        o += which;
        o += '(';
        for (const auto& e : v) {
            put(o, e.first);
            e.second.text(o);
        }
        o += ')';
    }

    struct Reader {
        const std::string& s;
        std::size_t at;
        char peek() const
        {
            return at < s.size() ? s[at] : '\0';
        }
        std::string str()
        {
            std::string o;
            ++at;
            while (at < s.size() && s[at] != '"') {
                if (s[at] == '%' && at + 2 < s.size()) {
                    o += static_cast<char>(std::strtol(s.substr(at + 1, 2).c_str(), nullptr, 16));
                    at += 3;
                } else
                    o += s[at++];
            }
            ++at;
            return o;
        }
        void list(std::vector<std::pair<std::string, Node> >& v)
        {
            at += 2;
            while (at < s.size() && s[at] == '"') {
                std::string k = str();
                v.emplace_back(std::move(k), node());
            }
            ++at;
        }
        Node node()
        {
            Node n;
            n.type = peek();
            ++at;
            for (;;) {
                switch (peek()) {
                    case '!':
                        ++at;
                        n.name = str();
                        break;
                    case '~':
                        ++at;
                        n.empty = true;
                        break;
                    case '=':
                        ++at;
                        n.scalar = str();
                        break;
                    case 'm':
                        list(n.meta);
                        break;
                    case 'a':
                        list(n.attrs);
                        break;
                    case '[':
                        ++at;
                        while (at < s.size() && s[at] != ']')
                            n.kids.push_back(node());
                        ++at;
                        break;
                    default:
                        return n;
                }
            }
        }
    };
}

void put_quoted(std::string& out, const std::string& s)
{
    put(out, s);
}

std::string Node::text() const
{
    std::string o;
    text(o);
    return o;
}
void Node::text(std::string& o) const
{
    if (absent()) {
        o += '_';
        return;
    }
    o += type;
    if (!name.empty() && name != type_name(type)) {
        o += '!';
        put(o, name);
    }
    if (empty)
        o += '~';
    else if (type == 'S' || type == 'N' || type == 'B' || type == 'R') {
        o += '=';
        put(o, scalar);
    }
    infos(o, 'm', meta);
    infos(o, 'a', attrs);
    if (!empty && (container() || type == 'M' || type == 'E' || type == 'H')) {
        o += '[';
        for (const auto& k : kids)
            k.text(o);
        o += ']';
    }
}

Node Node::parse(const std::string& t)
{
    Reader r{ t, 0 };
    return r.node();
}

void Node::each(const std::function<void(Node&)>& f)
{
    if (absent())
        return;
    f(*this);
    for (auto& e : meta)
        e.second.each(f);
    for (auto& e : attrs)
        e.second.each(f);
    for (auto& e : kids)
        e.each(f);
}

void Node::normalise()
{
    auto dedup = [](std::vector<std::pair<std::string, Node> >& v) {
        std::vector<std::pair<std::string, Node> > o;
        for (auto& e : v) {
            bool found = false;
            for (auto& k : o)
                if (k.first == e.first) {
                    k.second = e.second;
                    found = true;
                }
            if (!found)
                o.push_back(e);
        }
        v.swap(o);
    };
    each([&dedup](Node& n) {
        dedup(n.meta);
        dedup(n.attrs);
        if (n.name == type_name(n.type))
            n.name.clear();
        if (n.empty)
            n.kids.clear();
        if (n.type == 'M' && !n.empty)
            n.kids.resize(2);
        if ((n.type == 'E' || n.type == 'H') && n.kids.empty())
            n.empty = true;
    });
}

std::size_t Node::count() const
{
    std::size_t n = 0;
    const_cast<Node*>(this)->each([&n](Node&) { ++n; });
    return n;
}

// ------------------------------------------------------------------------------------- generation
Spread spread;
SpreadScope::SpreadScope(Rng& r)
{
    spread = Spread();
    if (r.chance(1, 4)) {
        spread.focused = true;
        spread.slot = static_cast<int>(r.below(3));
        spread.place = r.chance(1, 2) ? 0 : static_cast<int>(r.below(4));
        spread.key = static_cast<int>(r.below(64));
    }
    if (!r.chance(1, 4))
        return;
    if (r.chance(1, 2))
        spread.names = 1 + static_cast<int>(r.below(MostNames));
    if (r.chance(1, 2))
        spread.keys = 4 + static_cast<int>(r.below(80));
    if (r.chance(1, 3))
        spread.texts = 1 << r.below(13);
    if (r.chance(1, 3)) {
        spread.bulk = 1 + static_cast<int>(r.below(12));
        spread.broad = r.chance(1, 2);
    }
}
std::string extra_name(int i)
{
    return i % 2 ? "Type " + std::to_string(i) : "The data structure with number " + std::to_string(i);
}
std::string random_key(Rng& r)
{
    if (spread.keys && r.chance(3, 4))
        return "key-" + std::to_string(r.below(static_cast<std::uint64_t>(spread.keys)));
    static const std::vector<std::string> k = { "id", "name", "a", "b", "key", "x-much-longer-property-name", "title",
        "another-quite-long-member-key", "q", "class" };
    if (spread.focused && r.chance(3, 4))
        return k[static_cast<std::size_t>(spread.key) % k.size()];
    return r.pick(k);
}
std::string random_type(Rng& r)
{
    if (spread.names && r.chance(3, 4))
        return extra_name(static_cast<int>(r.below(static_cast<std::uint64_t>(spread.names))));
    static const std::vector<std::string> k
        = { "Alpha", "Beta", "Gamma", "Delta", "A rather long named data structure", "Another long named structure" };
    return r.pick(k);
}
std::string random_text(Rng& r, bool longs)
{
    static const std::vector<std::string> k = { "", "x", "value", "42", "hello world", "\xc3\xa9t\xc3\xa9",
        "line\nbreak", "\"quoted\"" };
    static const std::vector<std::string> l = { "a string that does not fit into a small buffer",
        "\xe6\xbc\xa2\xe5\xad\x97 and other multi-byte characters \xf0\x9f\x98\x80 in a long string",
        "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef" };
    if (spread.texts && r.chance(1, 8)) {
        std::string t = r.pick(l);
        const auto n = r.below(static_cast<std::uint64_t>(spread.texts)) + 1;
        while (t.size() < n)
            t += t.size() % 7 ? r.pick(k) + "-" : r.pick(l);
        return t;
    }
    if (longs && r.chance(1, 3))
        return r.pick(l);
    return r.pick(k);
}

namespace
{
    Node leaf(char t)
    {
        Node n;
        n.type = t;
        return n;
    }
    Node str(const std::string& s)
    {
        Node n = leaf('S');
        n.scalar = s;
        return n;
    }

    struct Gen {
        Rng& r;
        TreeStyle st;
        int left;

        std::string number()
        {
            static const std::vector<std::string> k
                = { "0", "1", "42", "-7", "3.14", "12 apples", "1000000", "123456789012345678901234567890" };
            return k[r.below(st.longs ? 8 : 7)];
        }

        Node member(int depth)
        {
            Node m = leaf('M');
            m.kids.push_back(key());
            m.kids.push_back(tree(depth - 1, 0));
            if (r.chance(1, 5)) {
                static const std::vector<std::string> a = { "required", "optional", "required", "nullable" };
                type_attr(m, r.pick(a));
            }
            return m;
        }
        Node key()
        {
            Node k = str(random_key(r));
            if (!r.chance(1, 4))
                return k;
            switch (r.below(5)) {
                case 0: // without a value
                    k.empty = true;
                    k.scalar.clear();
                    if (r.chance(1, 2))
                        k.attrs.emplace_back("default", str(random_key(r)));
                    return k;
                case 1: // a variable property
                case 2: {
                    Node b = leaf('B');
                    b.scalar = "1";
                    k.attrs.emplace_back("variable", b);
                    if (st.named && r.chance(1, 2))
                        k.name = random_type(r);
                    return k;
                }
                default: { // ... once expanded
                    if (!st.extends)
                        return k;
                    Node x = leaf('X');
                    const int c = 1 + static_cast<int>(r.below(3));
                    for (int i = 0; i < c; ++i) {
                        Node s = str(random_key(r));
                        if (r.chance(1, 4)) {
                            s.empty = true;
                            s.scalar.clear();
                            if (r.chance(1, 2))
                                s.attrs.emplace_back("default", str(random_key(r)));
                            else if (r.chance(1, 3))
                                type_attr(s, "nullable");
                        } else if (r.chance(1, 6))
                            s.scalar.clear();
                        x.kids.push_back(s);
                    }
                    return x;
                }
            }
        }
        void type_attr(Node& n, const std::string& a)
        {
            Node arr = leaf('A');
            if (r.chance(1, 12)) // not a name
                arr.kids.push_back(leaf('N'));
            arr.kids.push_back(str(a));
            if (r.chance(1, 3))
                arr.kids.push_back(str("nullable"));
            n.attrs.emplace_back("typeAttributes", arr);
        }
        template <typename V>
        void shuffle(V& v)
        {
            for (auto i = v.size(); i > 1; --i)
                std::swap(v[i - 1], v[r.below(i)]);
        }
        void infos(Node& n, int depth)
        {
            if (!st.infos)
                return;
            if (r.chance(1, 6))
                n.meta.emplace_back("id", str(random_type(r)));
            if (r.chance(1, 6))
                n.meta.emplace_back("description", str(random_text(r, st.longs)));
            if (r.chance(1, 10))
                n.meta.emplace_back("title", str(random_text(r, st.longs)));
            if (r.chance(1, 16))
                n.meta.emplace_back(r.chance(1, 2) ? "prefix" : "namespace", str(random_text(r, st.longs)));
            if (r.chance(1, 6)) {
                static const std::vector<std::string> a = { "fixed", "fixedType", "nullable", "required", "optional", "default" };
                type_attr(n, r.pick(a));
            }
            if (r.chance(1, 8) && depth > 0 && n.type != 'M' && n.type != 'X') {
                Node d = alike(n, depth);
                n.attrs.emplace_back("default", d);
            }
            if (r.chance(1, 8) && depth > 0 && n.type != 'M' && n.type != 'X') {
                Node a = leaf('A');
                if (!r.chance(1, 8))
                    a.kids.push_back(alike(n, depth));
                if (r.chance(1, 4))
                    a.kids.push_back(alike(n, depth));
                n.attrs.emplace_back("samples", a);
            }
            if (n.type == 'R' && r.chance(1, 4)) {
                const char t = r.chance(1, 4) ? 'A' : 'O';
                Node res = r.chance(1, 2) ? leaf('X') : tree(depth - 1, t);
                if (res.type == 'X') {
                    res.empty = false;
                    const auto k = 1 + r.below(3);
                    for (std::uint64_t i = 0; i < k; ++i)
                        res.kids.push_back(tree(depth - 1, r.chance(1, 8) ? 'S' : t));
                }
                n.attrs.emplace_back("resolved", res);
            }
            if (spread.keys && r.chance(1, 3))
                for (std::uint64_t i = r.below(r.chance(1, 4) ? 30 : 6); i; --i)
                    (r.chance(1, 2) ? n.meta : n.attrs).emplace_back(random_key(r), str(random_text(r, st.longs)));
            if (r.chance(1, 12)) {
                Node sm = leaf('A'), rg = leaf('A'), a = leaf('N'), b = leaf('N');
                a.scalar = "0";
                b.scalar = "5";
                rg.kids = { a, b };
                sm.kids = { rg };
                n.attrs.emplace_back("sourceMap", sm);
            }
            if (r.chance(1, 3)) { // in any order
                shuffle(n.meta);
                shuffle(n.attrs);
            }
        }

        // a value for an element to have by default, or as a sample: most often of its kind
        Node alike(const Node& n, int depth)
        {
            const char t = n.type;
            if (t == 'S' || t == 'N' || t == 'B')
                return tree(0, r.chance(1, 12) ? 'O' : t);
            if ((t == 'A' || t == 'O' || t == 'E') && r.chance(1, 2))
                return tree(depth - 1, t);
            return tree(0, 'S');
        }
        Node tree(int depth, char want)
        {
            --left;
            char t = want;
            if (!t) {
                if (depth <= 0 || left <= 0) {
                    static const char ts[] = "SSSNNBZ";
                    t = ts[r.below(7)];
                    if (st.refs && r.chance(1, 8))
                        t = 'R';
                } else {
                    std::string ts = "SSNBAAOOOOEZ";
                    if (st.refs)
                        ts += "R";
                    if (st.extends)
                        ts += "X";
                    if (r.chance(1, 3))
                        ts += "H";
                    t = ts[r.below(ts.size())];
                }
            }
            Node n = leaf(t);
            switch (t) {
                case 'S':
                    n.scalar = random_text(r, st.longs);
                    n.empty = r.chance(1, 6);
                    break;
                case 'N':
                    n.scalar = number();
                    n.empty = r.chance(1, 6);
                    break;
                case 'B':
                    n.scalar = r.chance(1, 2) ? "1" : "0";
                    n.empty = r.chance(1, 6);
                    break;
                case 'R':
                    n.scalar = random_type(r);
                    break;
                case 'Z':
                    n.empty = r.chance(1, 3);
                    break;
                case 'A': {
                    int c = static_cast<int>(r.below(4));
                    if (spread.broad && r.chance(1, 4))
                        c *= 1 + static_cast<int>(r.below(30));
                    for (int i = 0; i < c && left > 0; ++i)
                        n.kids.push_back(tree(depth - 1, 0));
                    break;
                }
                case 'O': {
                    int c = static_cast<int>(r.below(5));
                    if (spread.broad && r.chance(1, 4))
                        c *= 1 + static_cast<int>(r.below(20));
                    for (int i = 0; i < c && left > 0; ++i) {
                        if (st.selects && r.chance(1, 8)) {
                            Node l = leaf('L');
                            int o = 1 + static_cast<int>(r.below(2));
                            for (int j = 0; j < o; ++j) {
                                Node p = leaf('P');
                                p.kids.push_back(member(depth - 1));
                                l.kids.push_back(p);
                            }
                            n.kids.push_back(l);
                        } else if (st.refs && r.chance(1, 10))
                            n.kids.push_back(tree(0, 'R'));
                        else
                            n.kids.push_back(member(depth));
                    }
                    break;
                }
                case 'E': {
                    Node en = leaf('A');
                    int c = 1 + static_cast<int>(r.below(2));
                    for (int i = 0; i < c; ++i)
                        en.kids.push_back(tree(0, r.chance(3, 4) ? 'S' : 'N'));
                    if (r.chance(3, 4))
                        n.attrs.emplace_back("enumerations", en);
                    n.empty = r.chance(1, 2);
                    if (!n.empty)
                        n.kids.push_back(tree(0, 'S'));
                    break;
                }
                case 'H':
                    n.kids.push_back(tree(depth - 1, 0));
                    break;
                case 'M':
                    n = member(depth);
                    break;
                case 'X': {
                    int c = 1 + static_cast<int>(r.below(3));
                    static const char ts[] = "SNAOO";
                    char b = ts[r.below(5)];
                    for (int i = 0; i < c; ++i)
                        n.kids.push_back(tree(depth - 1, b));
                    break;
                }
                case 'P': {
                    n.kids.push_back(member(depth));
                    break;
                }
                case 'L': {
                    Node p = tree(depth, 'P');
                    n.kids.push_back(p);
                    break;
                }
            }
            if (st.named && (t == 'S' || t == 'N' || t == 'A' || t == 'O' || t == 'B') && r.chance(1, 6))
                n.name = random_type(r);
            infos(n, depth);
            return n;
        }
    };
}

Node random_tree(Rng& r, TreeStyle st, char root)
{
    if (spread.bulk > 1 && r.chance(1, 3))
        st.budget *= spread.bulk;
    st.budget = 2 + static_cast<int>(r.below(static_cast<std::uint64_t>(st.budget)));
    Gen g{ r, st, st.budget };
    return g.tree(st.depth, root);
}

Node random_mergeable(Rng& r, TreeStyle st)
{
    Gen g{ r, st, st.budget };
    Node x;
    x.type = 'X';
    static const char ts[] = "SNBAOOOER";
    const char b = ts[r.below(9)];
    const int c = 2 + static_cast<int>(r.below(3));
    for (int i = 0; i < c; ++i) {
        g.left = st.budget;
        x.kids.push_back(g.tree(2, b));
    }
    return x;
}

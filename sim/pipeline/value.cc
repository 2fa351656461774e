#include "value.h"

#include <cctype>
#include <cstring>

bool valid_utf8(const std::string& s)
{
    for (std::size_t i = 0; i < s.size();) {
        const unsigned char c = static_cast<unsigned char>(s[i]);
        std::size_t n;
        unsigned cp;
        if (c < 0x80) {
            ++i;
            continue;
        }
        if (c >= 0xc2 && c < 0xe0)
            n = 1, cp = c & 0x1f;
        else if (c >= 0xe0 && c < 0xf0)
            n = 2, cp = c & 0x0f;
        else if (c >= 0xf0 && c < 0xf5)
            n = 3, cp = c & 0x07;
        else
            return false;
        if (i + n >= s.size())
            return false;
        for (std::size_t k = 1; k <= n; ++k) {
            const unsigned char d = static_cast<unsigned char>(s[i + k]);
            if ((d & 0xc0) != 0x80)
                return false;
            cp = cp << 6 | (d & 0x3f);
        }
        if ((n == 2 && (cp < 0x800 || (cp >= 0xd800 && cp < 0xe000))) || (n == 3 && (cp < 0x10000 || cp > 0x10ffff)))
            return false;
        i += n + 1;
    }
    return true;
}

bool number_syntax(const std::string& s)
{
    std::size_t i = 0;
    auto digit = [&] { return i < s.size() && std::isdigit(static_cast<unsigned char>(s[i])); };
    if (i < s.size() && s[i] == '-')
        ++i;
    if (!digit())
        return false;
    if (s[i] == '0')
        ++i;
    else
        while (digit())
            ++i;
    if (i < s.size() && s[i] == '.') {
        ++i;
        if (!digit())
            return false;
        while (digit())
            ++i;
    }
    if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
        ++i;
        if (i < s.size() && (s[i] == '+' || s[i] == '-'))
            ++i;
        if (!digit())
            return false;
        while (digit())
            ++i;
    }
    return i == s.size();
}

namespace
{
    void put_utf8(std::string& o, unsigned c)
    {
        if (c < 0x80)
            o += static_cast<char>(c);
        else if (c < 0x800) {
            o += static_cast<char>(0xc0 | c >> 6);
            o += static_cast<char>(0x80 | (c & 0x3f));
        } else if (c < 0x10000) {
            o += static_cast<char>(0xe0 | c >> 12);
            o += static_cast<char>(0x80 | (c >> 6 & 0x3f));
            o += static_cast<char>(0x80 | (c & 0x3f));
        } else {
            o += static_cast<char>(0xf0 | c >> 18);
            o += static_cast<char>(0x80 | (c >> 12 & 0x3f));
            o += static_cast<char>(0x80 | (c >> 6 & 0x3f));
            o += static_cast<char>(0x80 | (c & 0x3f));
        }
    }
    struct Text {
        const std::string& s;
        std::size_t i = 0;
        [[noreturn]] void bad(const char* what) const
        {
            throw Malformed{ i, what };
        }
        bool more() const
        {
            return i < s.size();
        }
        char peek() const
        {
            return i < s.size() ? s[i] : '\0';
        }
        bool take(char c)
        {
            if (peek() != c || !more())
                return false;
            ++i;
            return true;
        }
        bool take(const char* w)
        {
            const std::size_t n = std::strlen(w);
            if (s.compare(i, n, w))
                return false;
            i += n;
            return true;
        }
        unsigned hex(int n)
        {
            unsigned v = 0;
            for (; n; --n) {
                const char c = peek();
                if (!std::isxdigit(static_cast<unsigned char>(c)))
                    bad("a hexadecimal digit was expected");
                v = v * 16 + static_cast<unsigned>(std::isdigit(static_cast<unsigned char>(c)) ? c - '0' : (c | 32) - 'a' + 10);
                ++i;
            }
            return v;
        }
        std::string quoted(bool yaml)
        {
            std::string o;
            if (!take('"'))
                bad("a string was expected");
            for (;;) {
                if (!more())
                    bad("the string does not end");
                const char c = s[i++];
                if (c == '"')
                    return o;
                if (static_cast<unsigned char>(c) < 0x20 && !(yaml && c == '\t')) {
                    --i;
                    bad("a control character in a string");
                }
                if (c != '\\') {
                    o += c;
                    continue;
                }
                const char e = peek();
                ++i;
                switch (e) {
                    case '"':
                    case '\\':
                    case '/':
                        o += e;
                        break;
                    case 'b':
                        o += '\b';
                        break;
                    case 'f':
                        o += '\f';
                        break;
                    case 'n':
                        o += '\n';
                        break;
                    case 'r':
                        o += '\r';
                        break;
                    case 't':
                        o += '\t';
                        break;
                    case 'u': {
                        unsigned c1 = hex(4);
                        if (!yaml && c1 >= 0xd800 && c1 < 0xdc00) {
                            if (!take("\\u"))
                                bad("half a surrogate pair");
                            const unsigned c2 = hex(4);
                            if (c2 < 0xdc00 || c2 > 0xdfff)
                                bad("half a surrogate pair");
                            c1 = 0x10000 + ((c1 - 0xd800) << 10) + (c2 - 0xdc00);
                        }
                        put_utf8(o, c1);
                        break;
                    }
                    default:
                        if (!yaml)
                            bad("an unknown escape");
                        switch (e) {
                            case '0':
                                o += '\0';
                                break;
                            case 'a':
                                o += '\a';
                                break;
                            case 'v':
                                o += '\v';
                                break;
                            case 'e':
                                o += '\x1b';
                                break;
                            case 'N':
                                put_utf8(o, 0x85);
                                break;
                            case '_':
                                put_utf8(o, 0xa0);
                                break;
                            case 'L':
                                put_utf8(o, 0x2028);
                                break;
                            case 'P':
                                put_utf8(o, 0x2029);
                                break;
                            case 'x':
                                put_utf8(o, hex(2));
                                break;
                            case 'U':
                                put_utf8(o, hex(8));
                                break;
                            default:
                                bad("an unknown escape");
                        }
                }
            }
        }
        std::string number()
        {
            const std::size_t from = i;
            while (more() && (std::isalnum(static_cast<unsigned char>(s[i])) || std::strchr("+-._", s[i])))
                ++i;
            const std::string t = s.substr(from, i - from);
            if (!number_syntax(t)) {
                i = from;
                bad("neither a number nor any other value");
            }
            return t;
        }
    };

    struct Json : Text {
        explicit Json(const std::string& t) : Text{ t } {}
        void space()
        {
            while (more() && std::strchr(" \t\n\r", s[i]))
                ++i;
        }
        Val value(int depth)
        {
            Val v;
            space();
            if (depth > 3000)
                bad("too deep for this reader");
            const char c = peek();
            if (c == '{') {
                ++i;
                v.kind = Val::Object;
                space();
                if (take('}'))
                    return v;
                do {
                    space();
                    std::string k = quoted(false);
                    space();
                    if (!take(':'))
                        bad("a colon was expected");
                    v.members.emplace_back(k, value(depth + 1));
                    space();
                } while (take(','));
                if (!take('}'))
                    bad("the end of an object was expected");
            } else if (c == '[') {
                ++i;
                v.kind = Val::Array;
                space();
                if (take(']'))
                    return v;
                do {
                    v.items.push_back(value(depth + 1));
                    space();
                } while (take(','));
                if (!take(']'))
                    bad("the end of an array was expected");
            } else if (c == '"') {
                v.kind = Val::String;
                v.text = quoted(false);
            } else if (take("null"))
                v.kind = Val::Null;
            else if (take("true"))
                v.kind = Val::True;
            else if (take("false"))
                v.kind = Val::False;
            else {
                v.kind = Val::Number;
                v.text = number();
            }
            return v;
        }
    };

    // block mappings and sequences with an indentation, flow only when empty, double-quoted or plain scalars
    struct Yaml : Text {
        explicit Yaml(const std::string& t) : Text{ t } {}
        std::size_t indent() const
        {
            std::size_t n = 0;
            while (i + n < s.size() && s[i + n] == ' ')
                ++n;
            return n;
        }
        void end_of_line()
        {
            if (more() && !take('\n'))
                bad("the end of the line was expected");
        }
        Val scalar()
        {
            Val v;
            if (take("{}"))
                v.kind = Val::Object;
            else if (take("[]"))
                v.kind = Val::Array;
            else if (peek() == '"') {
                v.kind = Val::String;
                v.text = quoted(true);
            } else if (take("null"))
                v.kind = Val::Null;
            else if (take("true"))
                v.kind = Val::True;
            else if (take("false"))
                v.kind = Val::False;
            else {
                v.kind = Val::Number;
                v.text = number();
            }
            end_of_line();
            return v;
        }
        std::string key()
        {
            if (peek() == '"')
                return quoted(true);
            const std::size_t from = i;
            while (more() && (std::isalnum(static_cast<unsigned char>(s[i])) || s[i] == '_'))
                ++i;
            const std::string k = s.substr(from, i - from);
            for (const char* w : { "", "null", "Null", "NULL", "true", "True", "TRUE", "false", "False", "FALSE", "y", "n", "yes",
                     "no", "on", "off", "Yes", "No", "On", "Off", "YES", "NO", "ON", "OFF", "Y", "N" })
                if (k == w)
                    bad("a plain key that is not a string");
            if (std::isdigit(static_cast<unsigned char>(k[0])))
                bad("a plain key that is not a string");
            return k;
        }
        // after "key:" or "-"
        Val after(std::size_t at, int depth)
        {
            if (take(' '))
                return scalar();
            end_of_line();
            if (!more())
                bad("a value was expected");
            const std::size_t in = indent();
            if (in <= at)
                bad("a value was expected");
            return block(in, depth + 1);
        }
        Val block(std::size_t in, int depth)
        {
            Val v;
            if (depth > 3000)
                bad("too deep for this reader");
            if (s[i + in] == '-') {
                v.kind = Val::Array;
                while (more() && indent() == in) {
                    i += in;
                    if (!take('-'))
                        bad("a list entry was expected");
                    v.items.push_back(after(in, depth));
                }
            } else {
                v.kind = Val::Object;
                while (more() && indent() == in) {
                    i += in;
                    std::string k = key();
                    for (const auto& m : v.members)
                        if (m.first == k)
                            bad("a key twice in a mapping");
                    if (!take(':'))
                        bad("a colon was expected");
                    v.members.emplace_back(k, after(in, depth));
                }
            }
            if (more() && indent() > in)
                bad("indentation");
            return v;
        }
    };
}

Val read_json(const std::string& s)
{
    Json j(s);
    Val v = j.value(0);
    j.space();
    if (j.more())
        j.bad("something follows the value");
    return v;
}

Val read_yaml(const std::string& s)
{
    Yaml y(s);
    if (!y.more())
        y.bad("nothing there");
    Val v;
    if (y.indent() == 0 && s[0] != '-' && s.find(':') == std::string::npos)
        v = y.scalar();
    else
        v = y.block(0, 0);
    if (y.more())
        y.bad("something follows the document");
    return v;
}

bool equal(const Val& a, const Val& b, std::string& where)
{
    if (a.kind != b.kind || a.text != b.text || a.items.size() != b.items.size() || a.members.size() != b.members.size()) {
        where += ": " + std::to_string(a.kind) + " '" + a.text.substr(0, 100) + "' (" + std::to_string(a.items.size() + a.members.size())
            + ") and " + std::to_string(b.kind) + " '" + b.text.substr(0, 100) + "' ("
            + std::to_string(b.items.size() + b.members.size()) + ")";
        return false;
    }
    const std::string here = where;
    for (std::size_t i = 0; i < a.items.size(); ++i) {
        where = here + "/" + std::to_string(i);
        if (!equal(a.items[i], b.items[i], where))
            return false;
    }
    for (std::size_t i = 0; i < a.members.size(); ++i) {
        where = here + "/" + a.members[i].first;
        if (a.members[i].first != b.members[i].first) {
            where += " and " + b.members[i].first;
            return false;
        }
        if (!equal(a.members[i].second, b.members[i].second, where))
            return false;
    }
    where = here;
    return true;
}

namespace
{
    Val string_value(const std::string& s)
    {
        Val v;
        v.kind = Val::String;
        v.text = s;
        return v;
    }
    Val infos(const std::vector<std::pair<std::string, Node> >& from, bool show, bool sourcemaps)
    {
        Val v;
        v.kind = Val::Object;
        for (const auto& e : from)
            if (show || e.first != "sourceMap")
                v.members.emplace_back(e.first, expected_value(e.second, sourcemaps));
        return v;
    }
}

Val expected_value(const Node& n, bool sourcemaps)
{
    Val v;
    v.kind = Val::Object;
    const std::string name = n.name.empty() ? type_name(n.type) : n.name;
    v.members.emplace_back("element", string_value(name));
    Val m = infos(n.meta, sourcemaps, sourcemaps);
    if (!m.members.empty())
        v.members.emplace_back("meta", m);
    Val a = infos(n.attrs, sourcemaps || name == "annotation", sourcemaps);
    if (!a.members.empty())
        v.members.emplace_back("attributes", a);
    if (n.empty)
        return v;
    Val c;
    switch (n.type) {
        case 'Z':
            break;
        case 'S':
        case 'R':
            c = string_value(n.scalar);
            break;
        case 'N':
            c.kind = Val::Number;
            c.text = n.scalar;
            break;
        case 'B':
            c.kind = n.scalar == "1" ? Val::True : Val::False;
            break;
        case 'M':
            c.kind = Val::Object;
            c.members.emplace_back("key", expected_value(n.kids.at(0), sourcemaps));
            if (n.kids.size() > 1 && !n.kids[1].absent())
                c.members.emplace_back("value", expected_value(n.kids[1], sourcemaps));
            break;
        case 'E':
        case 'H':
            c = expected_value(n.kids.at(0), sourcemaps);
            break;
        default:
            c.kind = Val::Array;
            for (const auto& k : n.kids)
                c.items.push_back(expected_value(k, sourcemaps));
    }
    v.members.emplace_back("content", c);
    return v;
}

#include "tree.h"

using namespace refract;

namespace
{
    template <typename E>
    std::unique_ptr<IElement> kids(const Node& n)
    {
        auto e = make_element<E>();
        for (const auto& k : n.kids)
            e->get().push_back(build(k));
        return std::move(e);
    }

    std::unique_ptr<IElement> bare(const Node& n)
    {
        switch (n.type) {
            case 'Z':
                if (n.empty)
                    return make_empty<NullElement>();
                return make_element<NullElement>();
            case 'S':
                return n.empty ? make_empty<StringElement>() : make_element<StringElement>(n.scalar);
            case 'N':
                return n.empty ? make_empty<NumberElement>() : make_element<NumberElement>(n.scalar);
            case 'B':
                return n.empty ? make_empty<BooleanElement>() : make_element<BooleanElement>(n.scalar == "1");
            case 'R':
                return n.empty ? make_empty<RefElement>() : make_element<RefElement>(n.scalar);
            case 'A':
                if (n.empty)
                    return make_empty<ArrayElement>();
                return kids<ArrayElement>(n);
            case 'O': {
                if (n.empty)
                    return make_empty<ObjectElement>();
                auto e = make_element<ObjectElement>();
                for (const auto& k : n.kids) // as they are: no replacement of members of the same key
                    e->get().insert(e->get().end(), build(k));
                return std::move(e);
            }
            case 'X':
                if (n.empty)
                    return make_empty<ExtendElement>();
                return kids<ExtendElement>(n);
            case 'P':
                if (n.empty)
                    return make_empty<OptionElement>();
                return kids<OptionElement>(n);
            case 'L': {
                if (n.empty)
                    return make_empty<SelectElement>();
                auto e = make_element<SelectElement>();
                for (const auto& k : n.kids)
                    e->get().push_back(std::unique_ptr<OptionElement>(static_cast<OptionElement*>(build(k).release())));
                return std::move(e);
            }
            case 'M': {
                if (n.empty)
                    return make_empty<MemberElement>();
                auto key = n.kids.empty() || n.kids[0].absent() ? nullptr : build(n.kids[0]);
                auto val = n.kids.size() < 2 || n.kids[1].absent() ? nullptr : build(n.kids[1]);
                if (!key && !val)
                    return make_element<MemberElement>();
                return make_element<MemberElement>(std::move(key), std::move(val));
            }
            case 'E':
                if (n.empty || n.kids.empty())
                    return make_empty<EnumElement>();
                return make_element<EnumElement>(build(n.kids[0]));
            case 'H':
                if (n.empty || n.kids.empty())
                    return make_empty<HolderElement>();
                return make_element<HolderElement>(build(n.kids[0]));
        }
        return nullptr;
    }

    template <bool Const>
    struct Walk {
        using E = typename std::conditional<Const, const IElement, IElement>::type;
        std::vector<E*>& out;

        void kid(const IElement* e) const
        {
            if (e)
                Walk{ out }.go(const_cast<E&>(*e));
        }
        template <typename T>
        void container(const T& e) const
        {
            if (!e.empty())
                for (const auto& k : e.get())
                    kid(k.get());
        }
        void operator()(const ArrayElement& e) const
        {
            container(e);
        }
        void operator()(const ObjectElement& e) const
        {
            container(e);
        }
        void operator()(const ExtendElement& e) const
        {
            container(e);
        }
        void operator()(const OptionElement& e) const
        {
            container(e);
        }
        void operator()(const SelectElement& e) const
        {
            container(e);
        }
        void operator()(const MemberElement& e) const
        {
            if (!e.empty()) {
                kid(e.get().key());
                kid(e.get().value());
            }
        }
        void operator()(const EnumElement& e) const
        {
            if (!e.empty())
                kid(e.get().value());
        }
        void operator()(const HolderElement& e) const
        {
            if (!e.empty())
                kid(e.get().data());
        }
        template <typename T>
        void operator()(const T&) const
        {
        }
        void go(E& e)
        {
            out.push_back(&e);
            for (auto& m : e.meta())
                kid(m.second.get());
            for (auto& a : e.attributes())
                kid(a.second.get());
            refract::visit(e, Walk(*this));
        }
    };

    struct Reading {
        Node* n;
        template <typename T>
        void container(const T& e) const
        {
            if (!e.empty())
                for (const auto& k : e.get())
                    n->kids.push_back(read(k.get()));
        }
        void operator()(const NullElement&) const
        {
            n->type = 'Z';
        }
        void operator()(const StringElement& e) const
        {
            n->type = 'S';
            if (!e.empty())
                n->scalar = e.get().get();
        }
        void operator()(const NumberElement& e) const
        {
            n->type = 'N';
            if (!e.empty())
                n->scalar = e.get().get();
        }
        void operator()(const BooleanElement& e) const
        {
            n->type = 'B';
            if (!e.empty())
                n->scalar = e.get().get() ? "1" : "0";
        }
        void operator()(const RefElement& e) const
        {
            n->type = 'R';
            if (!e.empty())
                n->scalar = e.get().symbol();
        }
        void operator()(const ArrayElement& e) const
        {
            n->type = 'A';
            container(e);
        }
        void operator()(const ObjectElement& e) const
        {
            n->type = 'O';
            container(e);
        }
        void operator()(const ExtendElement& e) const
        {
            n->type = 'X';
            container(e);
        }
        void operator()(const OptionElement& e) const
        {
            n->type = 'P';
            container(e);
        }
        void operator()(const SelectElement& e) const
        {
            n->type = 'L';
            container(e);
        }
        void operator()(const MemberElement& e) const
        {
            n->type = 'M';
            if (!e.empty()) {
                n->kids.push_back(read(e.get().key()));
                n->kids.push_back(read(e.get().value()));
            }
        }
        void operator()(const EnumElement& e) const
        {
            n->type = 'E';
            if (!e.empty())
                n->kids.push_back(read(e.get().value()));
        }
        void operator()(const HolderElement& e) const
        {
            n->type = 'H';
            if (!e.empty())
                n->kids.push_back(read(e.get().data()));
        }
    };
}

namespace
{
    struct Kind {
        char type = 0;
        bool kids = false;
        const std::string* scalar = nullptr;
        const char* flag = nullptr;
        void operator()(const NullElement&) { type = 'Z'; }
        void operator()(const StringElement& e) { type = 'S'; if (!e.empty()) scalar = &e.get().get(); }
        void operator()(const NumberElement& e) { type = 'N'; if (!e.empty()) scalar = &e.get().get(); }
        void operator()(const BooleanElement& e) { type = 'B'; if (!e.empty()) flag = e.get().get() ? "1" : "0"; }
        void operator()(const RefElement& e) { type = 'R'; if (!e.empty()) scalar = &e.get().symbol(); }
        void operator()(const ArrayElement&) { type = 'A'; kids = true; }
        void operator()(const ObjectElement&) { type = 'O'; kids = true; }
        void operator()(const ExtendElement&) { type = 'X'; kids = true; }
        void operator()(const OptionElement&) { type = 'P'; kids = true; }
        void operator()(const SelectElement&) { type = 'L'; kids = true; }
        void operator()(const MemberElement&) { type = 'M'; kids = true; }
        void operator()(const EnumElement&) { type = 'E'; kids = true; }
        void operator()(const HolderElement&) { type = 'H'; kids = true; }
    };
    struct Kids {
        std::string& out;
        template <typename T>
        void container(const T& e) const
        {
            for (const auto& k : e.get())
                text_of(k.get(), out);
        }
        void operator()(const ArrayElement& e) const { container(e); }
        void operator()(const ObjectElement& e) const { container(e); }
        void operator()(const ExtendElement& e) const { container(e); }
        void operator()(const OptionElement& e) const { container(e); }
        void operator()(const SelectElement& e) const { container(e); }
        void operator()(const MemberElement& e) const
        {
            text_of(e.get().key(), out);
            text_of(e.get().value(), out);
        }
        void operator()(const EnumElement& e) const { text_of(e.get().value(), out); }
        void operator()(const HolderElement& e) const { text_of(e.get().data(), out); }
        template <typename T>
        void operator()(const T&) const {}
    };
    void infos_text(const InfoElements& v, char which, std::string& o)
    {
        if (v.empty())
            return;
        o += which;
        o += '(';
        for (const auto& e : v) {
            put_quoted(o, e.first);
            text_of(e.second.get(), o);
        }
        o += ')';
    }
}

void text_of(const IElement* e, std::string& o)
{
    if (!e) {
        o += '_';
        return;
    }
    Kind k;
    visit(*e, std::ref(k));
    o += k.type;
    const auto name = e->element();
    if (!name.empty() && name != type_name(k.type)) {
        o += '!';
        put_quoted(o, name);
    }
    if (e->empty())
        o += '~';
    else if (k.scalar || k.flag) {
        o += '=';
        put_quoted(o, k.scalar ? *k.scalar : std::string(k.flag));
    }
    infos_text(e->meta(), 'm', o);
    infos_text(e->attributes(), 'a', o);
    if (k.kids && !e->empty()) {
        o += '[';
        visit(*e, Kids{ o });
        o += ']';
    }
}

std::unique_ptr<IElement> build(const Node& n)
{
    if (n.absent())
        return nullptr;
    auto e = bare(n);
    if (!n.name.empty())
        e->element(n.name);
    for (const auto& m : n.meta)
        e->meta().set(m.first, build(m.second));
    for (const auto& a : n.attrs)
        e->attributes().set(a.first, build(a.second));
    return e;
}

Node read(const IElement* e)
{
    Node n;
    if (!e)
        return n;
    visit(*e, Reading{ &n });
    n.empty = e->empty();
    n.name = e->element();
    if (n.name == type_name(n.type))
        n.name.clear();
    for (const auto& m : e->meta())
        n.meta.emplace_back(m.first, read(m.second.get()));
    for (const auto& a : e->attributes())
        n.attrs.emplace_back(a.first, read(a.second.get()));
    return n;
}

void collect(IElement& e, std::vector<IElement*>& out)
{
    Walk<false>{ out }.go(e);
}
void collect(const IElement& e, std::vector<const IElement*>& out)
{
    Walk<true>{ out }.go(e);
}

#include "k.hpp"

namespace k {

namespace {

struct Parser {
    const std::string& t;
    std::size_t i = 0;
    std::string err;

    bool fail(std::string s)
    {
        if (err.empty())
            err = std::move(s) + " at offset " + std::to_string(i);
        return false;
    }
    bool lit(const char* s)
    {
        std::string x = s;
        if (t.compare(i, x.size(), x) != 0)
            return fail("expected " + x);
        i += x.size();
        return true;
    }
    bool is_space(char ch) { return ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r'; }
    bool skip()
    {
        bool any = false;
        while (i < t.size() && is_space(t[i])) {
            ++i;
            any = true;
        }
        return any;
    }
    bool name(std::string& out)
    {
        out.clear();
        while (i < t.size() && ((t[i] >= 'a' && t[i] <= 'z') || (t[i] >= 'A' && t[i] <= 'Z') || (!out.empty() && (t[i] == '-' || (t[i] >= '0' && t[i] <= '9')))))
            out += t[i++];
        return !out.empty() || fail("expected name");
    }
    bool valid_char(unsigned long v)
    {
        return (v == 9 || v == 10 || v == 13 || (v >= 0x20 && v <= 0xD7FF) || (v >= 0xE000 && v <= 0xFFFD) || (v >= 0x10000 && v <= 0x10FFFF));
    }
    void put(std::string& out, unsigned long v)
    {
        if (v < 0x80) {
            out += char(v);
        }
        else if (v < 0x800) {
            out += char(0xC0 | (v >> 6));
            out += char(0x80 | (v & 0x3F));
        }
        else {
            out += char(0xE0 | (v >> 12));
            out += char(0x80 | ((v >> 6) & 0x3F));
            out += char(0x80 | (v & 0x3F));
        }
    }
    bool attr_value(std::string& out)
    {
        out.clear();
        if (i >= t.size() || (t[i] != '"' && t[i] != '\''))
            return fail("expected quote");
        char q = t[i++];
        for (;;) {
            if (i >= t.size())
                return fail("unterminated attribute value");
            unsigned char ch = static_cast<unsigned char>(t[i]);
            if (ch == static_cast<unsigned char>(q)) {
                ++i;
                return true;
            }
            if (ch == '<')
                return fail("'<' in attribute value");
            if (ch == '&') {
                std::size_t j = t.find(';', i);
                if (j == std::string::npos)
                    return fail("bad reference");
                std::string e = t.substr(i + 1, j - i - 1);
                if (e == "amp")
                    out += '&';
                else if (e == "lt")
                    out += '<';
                else if (e == "gt")
                    out += '>';
                else if (e == "apos")
                    out += '\'';
                else if (e == "quot")
                    out += '"';
                else if (e.size() > 1 && e[0] == '#') {
                    bool hex = (e[1] == 'x');
                    std::string d = e.substr(hex ? 2 : 1);
                    if (d.empty() || d.size() > 7 || d.find_first_not_of(hex ? "0123456789abcdefABCDEF" : "0123456789") != std::string::npos)
                        return fail("bad character reference");
                    unsigned long v = std::stoul(d, nullptr, hex ? 16 : 10);
                    if (!valid_char(v))
                        return fail("reference to character that is not allowed in XML");
                    put(out, v);
                }
                else
                    return fail("unknown entity " + e);
                i = j + 1;
                continue;
            }
            if (ch < 0x20 && ch != 9 && ch != 10 && ch != 13)
                return fail("control character that is not allowed in XML");
            // Attribute value normalization
            out += (ch < 0x20 ? ' ' : char(ch));
            ++i;
        }
    }
    bool element(XmlNode& n)
    {
        if (!lit("<") || !name(n.tag))
            return false;
        for (;;) {
            bool sp = skip();
            if (i >= t.size())
                return fail("unterminated tag");
            if (t[i] == '/')
                return lit("/>");
            if (t[i] == '>') {
                ++i;
                break;
            }
            if (!sp)
                return fail("missing space");
            std::string a, v;
            if (!name(a) || !lit("=") || !attr_value(v))
                return false;
            if (!n.attrs.emplace(a, v).second)
                return fail("duplicate attribute");
        }
        for (;;) {
            skip();
            if (i + 1 >= t.size())
                return fail("unterminated element");
            if (t[i] != '<')
                return fail("text content");
            if (t[i + 1] == '/') {
                std::string e;
                return lit("</") && name(e) && (e == n.tag || fail("mismatched end tag")) && lit(">");
            }
            XmlNode ch;
            if (!element(ch))
                return false;
            n.children.push_back(std::move(ch));
        }
    }
};

} // namespace

bool parse_xml(const std::string& text, XmlNode& root, std::string& error)
{
    Parser p { text };
    bool ok = p.lit("<?xml version=\"1.0\"?>");
    p.skip();
    ok = ok && p.element(root);
    p.skip();
    if (ok && p.i != text.size())
        ok = p.fail("trailing content");
    error = p.err;
    return ok;
}

} // namespace k

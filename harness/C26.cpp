// C26: block documentation markup parses to exactly what was written.
#include "pbt.hpp"
#include "common.hpp"
#include <Pothos/Util/BlockDescription.hpp>
#include <Pothos/Exception.hpp>
#include <fstream>
using namespace pbt;
using Pothos::Util::BlockDescriptionParser;

//! drop empty members, which say nothing
static json norm(const json &j)
{
    if (j.is_object()) { json o = json::object(); for (auto it = j.begin(); it != j.end(); ++it) { const json v = norm(it.value()); if (v.is_null() || ((v.is_array() || v.is_object()) && v.empty())) continue; o[it.key()] = v; } return o; }
    if (j.is_array()) { json a = json::array(); for (auto &e : j) a.push_back(norm(e)); return a; }
    return j;
}
static json strip(const std::vector<std::string> &lines)
{
    json out = json::array(); bool last = true; for (auto &l : lines) { if (!last || !l.empty()) out.push_back(l); last = l.empty(); }
    if (!out.empty() && out.back().get<std::string>().empty()) out.erase(out.size() - 1); return out;
}
static std::string word(Src &s, size_t lo = 1) { std::string r; for (size_t n = size_t(s.range(int64_t(lo), 7)); n > 0; n--) r += s.chance(1, 6) ? s.pick({'_', '0', '7', 'Z'}) : char('a' + s.draw(25)); return r; }
static std::string text(Src &s, bool brackets = true)
{
    std::string r = word(s); static const std::vector<std::string> bits = {" ", "  ", ", ", ".", "(", ")", ":", "=", "\"", "'", "|", "\\", "<b>", "&", "é", "-", "#", "*", "/", "{", "}", "$x^2$", "%", "+"};
    for (size_t n = size_t(s.small(0, 6)); n > 0; n--) { auto b = s.pick(bits); if (brackets && s.chance(1, 8)) b = s.flip() ? "[" : "]"; if ((b == "*" && r.back() == '/') || (b == "/" && (r.back() == '*' || r.back() == '/')) || (b == "\\")) b = "-"; r += b; if (s.flip()) r += word(s); }
    while (r.back() == ' ' || r.back() == '/' || r.back() == '*') r.pop_back();
    return r.empty() ? "x" : r;
}
static std::string escape(const std::string &t) { std::string r; for (char c : t) { if (c == '[' || c == ']') r += '\\'; r += c; } return r; }
//! an argument: its text and its JSON value
static std::string argument(Src &s, json &v, int depth = 2)
{
    switch (s.draw(depth > 0 ? 8 : 4))
    {
    case 0: { const int64_t n = s.range(-99, 99); v = n; return std::to_string(n); }
    case 1: { const auto w = word(s); const auto t = w == "true" || w == "false" || w == "null" || isdigit((unsigned char)w[0]) ? "v" + w : w; v = t; return t; }
    case 2: { static const std::vector<std::string> bits = {",", "(", ")", "[", "]", "{", "}", " ", "\\\"", "\\\\", "a", "b", ":", "'"}; std::string t = "\""; for (size_t n = size_t(s.small(0, 5)); n > 0; n--) t += s.pick(bits); t += "\""; v = json::parse(t); return t; }
    case 3: { const bool b = s.flip(); v = b; return b ? "true" : "false"; }
    case 4: { v = double(s.range(-40, 40)) / 4 + 0.125; return v.dump(); }
    case 5: { std::string t = "["; v = json::array(); const size_t n = size_t(s.draw(3)); for (size_t i = 0; i < n; i++) { json e; std::string x; do x = argument(s, e, 0); while (e.is_string() && x[0] != '"'); t += (i ? ", " : "") + x; v.push_back(e); } return t + "]"; }
    case 6: { std::string t = "{"; v = json::object(); const size_t n = size_t(s.draw(2)); for (size_t i = 0; i < n; i++) { json e; std::string x; do x = argument(s, e, 0); while (e.is_string() && x[0] != '"'); const auto k = word(s); if (v.count(k)) continue; t += (v.empty() ? "\"" : ", \"") + k + "\": " + x; v[k] = e; } return t + "}"; }
    case 7: { const auto t = word(s) + "(" + word(s) + ", " + word(s) + ")"; v = t; return t; }
    default: { const auto t = word(s) + "[" + std::to_string(s.draw(9)) + "] + (1)*" + word(s); v = t; return t; }
    }
}
static std::string arguments(Src &s, json &obj, const std::string &args = "args", const std::string &kwargs = "kwargs")
{
    std::string r = s.chance(1, 4) ? " " : ""; const size_t n = size_t(s.draw(3)); json a = json::array(), k = json::object();
    for (size_t i = 0; i < n; i++) { json v; if (i) r += s.chance(1, 4) ? " , " : s.flip() ? ", " : ","; if (s.chance(1, 3)) { const auto key = word(s); if (k.count(key)) { r += "z"; a.push_back("z"); continue; } r += key + (s.flip() ? "=" : " = ") + argument(s, v); k[key] = v; } else { r += argument(s, v); a.push_back(v); } }
    if (n && s.chance(1, 5)) r += " "; obj[args] = a; obj[kwargs] = k; return "(" + r + ")";
}
static std::string path(Src &s) { std::string r; for (size_t n = 1 + s.draw(2); n > 0; n--) r += "/" + word(s); return r; }
static std::string docLine(Src &s) { switch (s.draw(9)) { case 0: case 1: case 2: return ""; case 3: return "    " + text(s); case 4: return "|"; case 5: return "|---|---"; case 6: return "<li>" + text(s) + "</li>"; case 7: return "|" + word(s); default: return text(s); } }
//! one description: instruction lines and the expected JSON
struct Desc { std::vector<std::string> lines; json want; std::vector<std::string> paths; std::vector<size_t> kinds; };
static Desc genDesc(Src &s)
{
    Desc d; std::vector<std::string> docs; json &w = d.want; auto name = text(s); w["name"] = name; d.lines.push_back("|PothosDoc" + std::string(1 + s.draw(1), ' ') + name);
    std::vector<std::string> aliases; bool mode = false;
    auto inst = [&](const std::string &i, const std::string &payload) { d.lines.push_back("|" + i + std::string(1 + (s.chance(1, 6) ? 2 : 0), ' ') + payload + (s.chance(1, 10) ? "  " : "")); };
    auto header = [&] (void) { for (size_t n = size_t(s.small(0, 7)); n > 0; n--) switch (s.draw(6)) {
        case 0: { auto c = path(s); w["categories"].push_back(c); inst("category", c); break; }
        case 1: { std::string k; for (size_t i = 1 + s.draw(2); i > 0; i--) { const auto x = word(s) + (s.chance(1, 4) ? "-x" : ""); k += (k.empty() ? "" : s.flip() ? " " : "  ") + x; w["keywords"].push_back(x); } inst("keywords", k); break; }
        case 2: { const auto a = path(s); w["aliases"].push_back(a); aliases.push_back(a); inst("alias", a); break; }
        case 3: if (!mode) { mode = true; const auto m = s.pick({std::string("graphWidget"), std::string("topology"), word(s)}); w["mode"] = m; inst("mode", m); } break;
        default: { const auto l = docLine(s); docs.push_back(l); d.lines.push_back(l); } } };
    header();
    for (size_t n = size_t(s.small(0, 4)); n > 0; n--)
    {
        json p; std::vector<std::string> desc; const auto key = word(s); const bool named = s.flip(); const auto pname = text(s); const auto first = s.chance(1, 4) ? "" : text(s); p["key"] = key; p["name"] = named ? pname : std::string(1, char(toupper(key[0]))) + key.substr(1); desc.push_back(first);
        inst("param", key + (named ? std::string(s.chance(1, 3) ? " " : "") + "[" + (s.chance(1, 4) ? " " : "") + escape(pname) + (s.chance(1, 4) ? " " : "") + "]" : "") + (first.empty() ? "" : " " + escape(first))); json opts = json::array();
        std::set<size_t> done;
        for (size_t m = size_t(s.small(0, 6)); m > 0; m--)
        {
            const size_t i = s.draw(7); if (i < 5 && !done.insert(i).second) continue;
            switch (i)
            {
            case 0: { const auto t = text(s); p["default"] = t; inst("default", t); break; }
            case 1: { const auto t = text(s); p["units"] = t; inst("units", t); break; }
            case 2: { const auto t = word(s); p["widgetType"] = t; inst("widget", t + arguments(s, p, "widgetArgs", "widgetKwargs")); break; }
            case 3: { const auto t = text(s); p["tab"] = t; inst("tab", t); break; }
            case 4: { const auto t = s.pick({std::string("disable"), std::string("enable"), std::string("valid"), std::string("invalid"), std::string("when")}); p["preview"] = t; inst("preview", t + (s.flip() ? arguments(s, p, "previewArgs", "previewKwargs") : "")); break; }
            case 5: { json o; const auto v = text(s); const auto nm = text(s); const bool has = s.flip(); o["value"] = v; o["name"] = has ? nm : std::string(1, char(toupper(v[0]))) + v.substr(1); opts.push_back(o); inst("option", (has ? "[" + escape(nm) + "] " : "") + escape(v)); break; }
            default: { const auto l = docLine(s); desc.push_back(l); d.lines.push_back(l); }
            }
        }
        p["options"] = opts; p["desc"] = strip(desc); w["params"].push_back(p);
    }
    const size_t calls = size_t(s.small(0, 3)), at = s.draw(calls);
    for (size_t i = 0; i <= calls; i++)
    {
        if (i == at) { const auto f = path(s); w["path"] = f; inst("factory", f + (s.chance(1, 6) ? " " : "") + arguments(s, w)); header(); }
        if (i < calls) { json c; const auto t = s.flip() ? "setter" : "initializer", n = word(s).c_str(); c["type"] = t; const std::string name2 = word(s); c["name"] = name2; (void)n; inst(t, name2 + (s.chance(1, 6) ? " " : "") + arguments(s, c)); w["calls"].push_back(c); }
    }
    w["docs"] = strip(docs); d.paths = {w["path"].get<std::string>()}; d.paths.insert(d.paths.end(), aliases.begin(), aliases.end()); w = norm(w); return d;
}
//! lay a description out as comment
static std::vector<std::string> layout(Src &s, const Desc &d)
{
    std::vector<std::string> out; const std::string base = s.pick({std::string(""), std::string("    "), std::string("\t")}); const size_t style = s.draw(5);
    static const std::vector<std::string> pre = {" * ", "", "// ", "/// ", "//! ", " "}; const std::string prefix = base + pre[style];
    const bool multi = style < 2 || style == 5;
    if (multi) { out.push_back(base + s.pick({std::string("/*"), std::string("/**"), std::string("/*!"), std::string("/*********")})); if (s.chance(1, 4)) out.push_back(prefix + "leading text"); }
    else if (s.chance(1, 4)) out.push_back(prefix + "leading text");
    for (auto &l : d.lines) { if (!l.empty()) out.push_back(prefix + l); else { std::string b = prefix; if (s.flip()) while (!b.empty() && b.back() == ' ') b.pop_back(); if (!multi && b.find('/') == std::string::npos) b = prefix; out.push_back(b); } }
    if (multi) out.push_back(base + (style == 0 ? s.pick({std::string(" */"), std::string(" **/"), std::string(" *********/")}) : std::string("*/")) + (s.chance(1, 6) ? "  " : ""));
    return out;
}
static void code(Src &s, std::vector<std::string> &out)
{
    static const std::vector<std::string> lines = {"int x = 1;", "", "#include <vector>", "void f(int /*unused*/, int b) {", "}", "    y += 2; // |PothosDoc not a block", "/* short */", "int z; /* one */ int w; /* two */", "class Foo : public Bar", "// ordinary comment", "/*", "x = a / *p;", "return \"http://x\";", "  ", "/***/ int q;", "static auto r = Registry(\"/a/b\");"};
    const size_t n = size_t(s.small(1, 6));
    for (size_t i = 0; i < n; i++) { const auto &l = s.pick(lines); if (l == "/*") { out.push_back("/*"); out.push_back(" * ordinary comment"); if (s.flip()) out.push_back(""); out.push_back(" */"); } else out.push_back(l); }
    out.push_back(s.flip() ? "int end;" : "};");
}
static std::string join(const std::vector<std::string> &lines, const std::string &nl, bool last) { std::string r; for (size_t i = 0; i < lines.size(); i++) r += lines[i] + (i + 1 < lines.size() || last ? nl : ""); return r; }

static void parse(Case &c)
{
    auto &s = c.s; BlockDescriptionParser p; json all = json::array(); std::vector<std::string> factories; std::map<std::string, json> byPath; size_t n = 0;
    for (size_t f = 1 + (s.chance(1, 4) ? 1 : 0); f > 0; f--)
    {
        std::vector<std::string> lines; bool after = true; for (size_t b = size_t(s.small(0, 3)); b > 0; b--) { if (s.chance(3, 4)) code(s, lines); const Desc d = genDesc(s); const auto l = layout(s, d); lines.insert(lines.end(), l.begin(), l.end()); after = s.chance(3, 4) || b > 1; if (after) { if (s.flip()) lines.push_back(""); lines.push_back("class Next;"); } all.push_back(d.want); for (auto &x : d.paths) { factories.push_back(x); byPath[x] = d.want; } n++; }
        if (after && s.chance(3, 4)) code(s, lines); const std::string src = join(lines, s.chance(1, 3) ? "\r\n" : "\n", s.flip()); c.desc << src << "\n=====\n";
        if (s.chance(1, 8)) { const auto file = scratchDir() + "/doc.cpp"; { std::ofstream o(file, std::ios::binary); o << src; } try { p.feedFilePath(file); } catch (const Pothos::Exception &ex) { PBT_FAIL("well-formed source refused: " << ex.displayText()); } }
        else { std::istringstream is(src); try { p.feedStream(is); } catch (const Pothos::Exception &ex) { PBT_FAIL("well-formed source refused: " << ex.displayText()); } }
    }
    json got = json::parse(p.getJSONArray(s.flip() ? 4 : 0)); if (got.is_null()) got = json::array(); PBT_CHECK(got.size() == all.size(), got.size() << " descriptions, want " << all.size());
    for (size_t i = 0; i < all.size(); i++) { const json g = norm(got[i]); if (g != all[i]) { std::ostringstream d; for (auto it = all[i].begin(); it != all[i].end(); ++it) if (!g.count(it.key()) || g[it.key()] != it.value()) d << it.key() << ": " << (g.count(it.key()) ? g[it.key()].dump() : "missing") << ", want " << it.value().dump() << "; "; for (auto it = g.begin(); it != g.end(); ++it) if (!all[i].count(it.key())) d << it.key() << ": " << it.value().dump() << " was not written; "; PBT_FAIL("description " << i << ": " << d.str()); } }
    PBT_CHECK(p.listFactories() == factories, "the factory list differs");
    for (auto &x : byPath) PBT_CHECK(norm(json::parse(p.getJSONObject(x.first))) == x.second, "the description of " << x.first << " differs");
    c.nontrivial = n > 0 && !all.empty() && (all[0].count("params") || all[0].count("calls") || n > 1); c.count("descriptions", n); if (n) c.tag("described");
}
static void malformed(Case &c)
{
    auto &s = c.s; Desc d = genDesc(s); auto &l = d.lines; auto inst = [&](const std::string &i) { std::vector<size_t> r; for (size_t k = 1; k < l.size(); k++) if (l[k].compare(0, i.size() + 2, "|" + i + " ") == 0) r.push_back(k); return r; };
    auto put = [&](size_t at, const std::string &t) { l.insert(l.begin() + long(at), t); }; const size_t fac = inst("factory").at(0); std::string what; bool indent = false;
    auto lastParam = [&] { const auto ps = inst("param"); if (ps.empty()) { put(1, "|param extra"); return size_t(1); } return s.pick(ps); };
    switch (s.draw(13))
    {
    case 0: what = "no factory"; l.erase(l.begin() + long(fac)); if (!inst("factory").empty()) return; break;
    case 1: what = "two factories"; put(fac + 1, "|factory /x/y()"); break;
    case 2: { what = "repeated member"; const size_t at = lastParam(); const auto t = s.pick({std::string("|default 1"), std::string("|units Hz"), std::string("|widget A()"), std::string("|tab x"), std::string("|preview when"), }); put(at + 1, t); put(at + 1, t); break; }
    case 3: { what = "unknown preview"; const size_t at = lastParam(); for (size_t k = at + 1; k < l.size() && l[k].compare(0, 7, "|param ") != 0; k++) if (l[k].compare(0, 9, "|preview ") == 0) l.erase(l.begin() + long(k--)); put(at + 1, "|preview sometimes"); break; }
    case 4: what = "widget without arguments"; put(lastParam() + 1, s.pick({std::string("|widget SpinBox"), std::string("|widget (1)"), std::string("|widget A(1) b")})); break;
    case 5: what = "factory form"; l[fac] = s.pick({std::string("|factory /a/b"), std::string("|factory a/b()"), std::string("|factory /a/b("), std::string("|factory /a b/c()"), std::string("|factory //()"), std::string("|factory ()")}); break;
    case 6: what = "call form"; put(fac + 1, s.pick({std::string("|setter setX"), std::string("|initializer 1-2()"), std::string("|setter ()"), std::string("|setter a(1) b")})); break;
    case 7: what = "alias path"; put(1, s.pick({std::string("|alias foo"), std::string("|alias /a/ b"), std::string("|alias /a//b")})); break;
    case 8: what = "brackets of arguments"; put(fac + 1, s.pick({std::string("|setter a(b))"), std::string("|setter a([1, 2)"), std::string("|setter a(1])"), std::string("|initializer a((1)"), std::string("|setter a({)")})); break;
    case 9: what = "parameter form"; put(fac, s.pick({std::string("|param [x] y"), std::string("|param -a"), std::string("|param .")})); break;
    case 10: what = "two modes"; put(fac + 1, "|mode a"); put(fac + 1, "|mode b"); break;
    case 11: what = "factory brackets"; l[fac] = s.pick({std::string("|factory /a/b(c))"), std::string("|factory /a/b([)"), std::string("|factory /a/b(})")}); break;
    default: what = "indentation"; indent = true;
    }
    std::vector<std::string> lines; code(s, lines);
    if (indent) { lines.push_back("/*"); for (auto &x : l) lines.push_back(x.empty() ? " *" : " * " + x); const size_t from = lines.size() - l.size() + 1; lines.insert(lines.begin() + long(from + s.draw(l.size() - 2)), "text without the leading mark"); lines.push_back(" * end"); lines.push_back(" */"); }
    else { const auto x = layout(s, d); lines.insert(lines.end(), x.begin(), x.end()); }
    lines.push_back("class Next;"); code(s, lines); const auto src = join(lines, "\n", true); c.desc << what << "\n" << src; BlockDescriptionParser p; std::istringstream is(src); std::string err; bool syntax = false; try { p.feedStream(is); } catch (const Pothos::SyntaxException &ex) { syntax = true; err = ex.displayText(); } catch (const Pothos::Exception &ex) { err = ex.displayText(); }
    PBT_CHECK(syntax, what << ": " << (err.empty() ? "accepted: " + p.getJSONArray(0) : "reported as " + err)); c.nontrivial = true; c.tag(what);
}
//! any text at all: an answer or a syntax error
static void garbage(Case &c)
{
    auto &s = c.s; static const std::vector<std::string> bits = {"|PothosDoc x", "|factory /a/b", "(", ")", "|param ", "a", "[", "]", "|default ", "|widget W(", "|preview when(", "|option ", "/*", "*/", "//", " * ", "\n", "\n", "\n * ", "\n// ", "\\[", "\\]", "=", ",", "{", "}", "\"", "|setter s(", "|alias /q", "|keywords ", "\r\n", "\\", "\t", " ", "|units", "|tab t", "|mode m", "|", "é", "|category c"};
    std::string t; for (size_t n = size_t(s.small(1, 60)); n > 0; n--) t += s.pick(bits); c.desc << t; BlockDescriptionParser p; std::istringstream is(t);
    try { p.feedStream(is); p.getJSONArray(4); for (auto &f : p.listFactories()) p.getJSONObject(f); c.tag("accepted"); } catch (const Pothos::SyntaxException &) { c.tag("refused"); } catch (const std::exception &ex) { PBT_FAIL("not reported as a syntax error: " << ex.what()); }
    c.nontrivial = t.find("|PothosDoc") != std::string::npos;
}
PBT_MAIN("C26", (std::vector<Sub>{{"parse", 4, &parse, false}, {"malformed", 2, &malformed, false}, {"garbage", 1, &garbage, false}}))

#include "gen.hpp"
#include <cstring>
namespace sim
{
static const char *SCALARS[] = {"int32", "string", "bool", "bytes", "double", "uint64", "sint32", "fixed64", "float", "sint64", "uint32", "fixed32", "sfixed32", "sfixed64", "int64"};
static const char *KEYS[]    = {"string", "int32", "uint64", "sint32", "fixed32", "bool", "int64", "sfixed64"};
static const char *KEYWORDS[] = {"option", "reserved", "optional", "enum", "message", "true"};
static const char *WORDS[]   = {"alpha", "beta", "gamma", "delta", "value", "name", "id", "class", "data", "count", "default", "list", "x", "y1", "long_field_name_with_words", "namespace", "camelCase", "union"};
std::vector<std::string> Project::args(const std::vector<int> &which) const
{
    std::vector<std::string> a = opts;
    if (out_split)
    {
        a.push_back("--cpp_out");
        a.push_back(out_opt);
    }
    else
        a.push_back("--cpp_out=" + out_opt);
    if (which.empty())
        for (auto &i : inputs) a.push_back(i.arg);
    else
        for (int i : which) a.push_back(inputs[size_t(i)].arg);
    return a;
}
void Project::install(SimFS &fs) const
{
    fs.mkdirs(cwd);
    for (auto &r : roots) fs.mkdirs(r);
    for (auto &f : files) fs.mkfile(f.path(), f.text);
    for (auto &o : other) fs.mkfile(o.first, o.second);
}
std::string Project::text() const
{
    std::string s = "cd " + cwd + " && spb-protoc";
    for (auto &a : args()) s += " " + a;
    return s;
}
namespace
{
struct G
{
    Run &r;
    const GenOpts &o;
    Project p;
    uint32_t uniq = 0;
    std::string comment(const char *ind)
    {
        switch (r.choose(10))
        {
        case 1: return std::string(ind) + "// plain comment\n";
        case 2: return std::string(ind) + "/* block\n" + ind + " comment */\n";
        case 3: return std::string(ind) + "// [not an option] { \" ' \n";
        default: return "";
        }
    }
    std::string ident(const char *stem) // some names start with a keyword
    {
        static const char *KW[] = {"message_", "enum_", "option_", "reserved_", "map_", "oneof_", "optional_", "required_", "extensions_", "repeated_", "extend_", "import_", "package_", "messages", "mapping", "options2", "true_", "to_"};
        std::string n = strf("%s%u", stem, uniq++);
        return r.coin(1, 16) ? KW[r.choose(sizeof KW / sizeof *KW)] + n : n;
    }
    std::string number(uint32_t n)
    {
        return r.coin(1, 16) ? strf("0x%x", n) : r.coin(1, 24) ? strf("0%o", n) : strf("%u", n);
    }
    std::string field_options(const char *first)
    {
        static const char *MORE[] = {"deprecated = true", "(my_opt) = 7", "(acme.opts).level.x = \"a\"", "(my_struct) = { a: 1 b: \"]\", c: [1, 2], d: { e: -1.5 } }", "json_name = \"otherName%u\"", "lazy = false", "(my_opt) = -3", "ctype = CORD"};
        std::string s = first;
        for (uint32_t k = r.choose(3); k--;)
        {
            std::string m = strf(MORE[r.choose(8)], uniq++);
            if (s.find(m.substr(0, m.find(' '))) != std::string::npos) continue;
            s += (s.empty() ? "" : r.coin(1, 2) ? ", " : ",\n        ") + m;
        }
        return s.empty() ? s : " [" + s + "]";
    }
    struct Ty
    {
        std::string name;
        bool msg, enm;
    };
    // types visible to file f (own earlier ones and those of direct imports)
    std::vector<Ty> visible(const ProtoFile &f, const std::vector<Ty> &own)
    {
        std::vector<Ty> v = own;
        for (int i : f.imports)
        {
            auto &g        = p.files[size_t(i)];
            std::string pf = g.package.empty() ? "" : g.package + ".";
            for (auto &m : g.messages) v.push_back({pf + m, true, false});
            for (auto &e : g.enums) v.push_back({pf + e, false, true});
        }
        return v;
    }
    std::string enum_text(const std::string &name, const char *ind)
    {
        std::string s = comment(ind) + ind + "enum " + name + "\n" + ind + "{\n";
        uint32_t n    = r.range(1, 4);
        if (r.coin(1, 10)) s += std::string(ind) + "    option allow_alias = true;\n";
        if (r.coin(1, 10)) s += std::string(ind) + "    ;\n";
        if (r.coin(1, 12)) s += std::string(ind) + strf("    %s_n%u = -%u;\n", KEYWORDS[r.choose(6)], uniq++, r.range(1, 100000));
        for (uint32_t i = 0; i < n; i++)
            s += strf("%s    %s_%u = %u%s;%s\n", ind, name.c_str(), i, i * (1 + r.choose(3)) + (i ? 3 : 0), r.coin(1, 10) ? " [deprecated = true]" : "", r.coin(1, 8) ? " // value" : "");
        if (r.coin(1, 8)) s += std::string(ind) + "    reserved 1000 to 2000, 5000;\n";
        return s + ind + "}\n";
    }
    std::string message_text(const ProtoFile &f, const std::string &name, const std::vector<Ty> &vis0, bool p2, int depth, const std::string &ind)
    {
        std::string s = comment(ind.c_str()) + ind + "message " + name + "\n" + ind + "{\n";
        std::string in = ind + "    ";
        std::vector<Ty> vis = vis0;
        if (depth < 3 && r.coin(1, 4))
        {
            std::string n = ident("Sub");
            s += message_text(f, n, vis0, p2, depth + 1, in);
            vis.push_back({n, true, false});
        }
        if (r.coin(1, 5))
        {
            std::string n = ident("En");
            s += enum_text(n, in.c_str());
            vis.push_back({n, false, true});
        }
        if (r.coin(1, 10)) s += in + "reserved 700 to 710, 800;\n";
        if (r.coin(1, 10)) s += in + "reserved \"gone\", 'lost';\n";
        if (r.coin(1, 14)) s += in + "extensions 100000 to 100199, 200000 to max;\n";
        if (r.coin(1, 14)) s += in + "option (my_msg_opt) = { on: true };\n";
        if (r.coin(1, 14)) s += in + ";\n";
        uint32_t num = 1, nf = r.choose(o.small ? 4 : 7);
        bool trailing = false; // the comments after a trailing comment are taken for parts of it
        std::set<std::string> used;
        auto fname = [&]
        {
            std::string n = WORDS[r.choose(sizeof WORDS / sizeof *WORDS)];
            while (!used.insert(n).second) n += strf("_%u", uniq++);
            return n;
        };
        for (uint32_t i = 0; i < nf; i++)
        {
            num += r.coin(1, 6) ? r.range(2, 5000) : 1;
            if (num >= 19000 && num <= 20001) num = 20001;
            s += comment(in.c_str());
            uint32_t k = r.choose(12);
            if (k == 10) // map
            {
                std::string v = SCALARS[r.choose(15)];
                if (!vis.empty() && r.coin(1, 3)) v = vis[r.choose(uint32_t(vis.size()))].name;
                s += in + strf("map<%s, %s> %s = %s%s;\n", KEYS[r.choose(8)], v.c_str(), fname().c_str(), number(num).c_str(), field_options("").c_str());
                continue;
            }
            if (k == 11) // oneof
            {
                s += in + "oneof " + fname() + "\n" + in + "{\n";
                uint32_t m = r.range(1, 3);
                if (r.coin(1, 10)) s += in + "    option (one_opt) = 1;\n";
                for (uint32_t j = 0; j < m; j++)
                {
                    std::string v = SCALARS[r.choose(15)];
                    if (!vis.empty() && r.coin(1, 3)) v = vis[r.choose(uint32_t(vis.size()))].name;
                    s += in + strf("    %s %s = %s%s;\n", v.c_str(), fname().c_str(), number(num).c_str(), field_options("").c_str());
                    num++;
                }
                s += in + "}\n";
                continue;
            }
            std::string label = p2 ? (r.coin(1, 6) ? "required " : "optional ") : r.coin(1, 4) ? "optional " : "";
            bool rep          = r.coin(1, 4);
            if (rep) label = "repeated ";
            std::string ty, opt;
            if (k >= 8 && r.coin(1, 2)) // own type
            {
                ty = name;
                if (label == "required ") label = "optional ";
            }
            else if (k >= 5 && !vis.empty())
                ty = vis[r.choose(uint32_t(vis.size()))].name;
            else
            {
                ty = SCALARS[r.choose(15)];
                if (rep && ty != "string" && ty != "bytes" && r.coin(1, 2)) opt = "packed = true";
                if (!rep && r.coin(1, 8)) opt = "deprecated = true";
                if (!rep && p2 && label == "optional " && r.coin(1, 6)) // default values
                    opt = ty == "string" ? "default = \"some [text] // {\"" : ty == "bool" ? "default = true" : ty == "bytes" ? "" : ty == "double" || ty == "float" ? "default = -1.5e3" : "default = 42";
                if (trailing)
                    ; // an option comment after a trailing comment would belong to the field before
                else if (rep && r.coin(1, 6)) s += in + strf("//[[ (spb_opt).max_count = %u ]]\n", r.range(1, 9));
                else if ((ty == "string" || ty == "bytes") && r.coin(1, 6))
                    s += in + strf("//[[ (spb_opt).max_size = %u ]]\n", r.range(1, 99));
                else if (ty == "uint32" && label == "required " && r.coin(1, 2))
                    s += in + "//[[ (spb_opt).type = \"uint32:2\" ]]\n";
                else if (ty == "int64" && r.coin(1, 4))
                    s += in + "//[[ (spb_opt).type = \"int16\" ]]\n";
            }
            trailing = r.coin(1, 12);
            s += in + label + ty + " " + fname() + strf(" = %s%s;%s\n", number(num).c_str(), field_options(opt.c_str()).c_str(), trailing ? " // trailing" : "");
        }
        return s + ind + "}\n";
    }
    void file_text(ProtoFile &f)
    {
        if (!o.small && r.coin(1, 20)) // shortest possible files
        {
            f.package.clear();
            if (r.coin(1, 2))
            {
                f.text = strf("enum T%u{A=0;}", uniq);
                f.enums.push_back(strf("T%u", uniq++));
            }
            else
            {
                f.text = strf("message M%u{}", uniq);
                f.messages.push_back(strf("M%u", uniq++));
            }
            if (f.imports.empty()) return;
            f.text.clear();
            f.enums.clear();
            f.messages.clear();
        }
        bool p2       = r.coin(1, 2);
        std::string s = comment("");
        s += p2 ? "syntax = \"proto2\";\n" : "syntax = \"proto3\";\n";
        if (!f.package.empty()) s += "package " + f.package + ";\n";
        if (r.coin(1, 6)) s += "option optimize_for = SPEED;\n";
        if (r.coin(1, 10)) s += "option (acme.file).style.name = 'x';\n;\n";
        if (r.coin(1, 12)) s += strf("extend google.protobuf.FieldOptions {\n    optional int32 my_opt%u = %u;\n}\n", uniq, 50000 + uniq), uniq++;
        for (int i : f.imports)
        {
            auto &g       = p.files[size_t(i)];
            std::string q = g.rel;
            if (r.coin(1, 3)) // relative to the importing file, as both are looked up
            {
                auto d1 = f.rel.rfind('/'), d2 = g.rel.rfind('/');
                if (f.root == g.root && (d1 == std::string::npos ? "" : f.rel.substr(0, d1)) == (d2 == std::string::npos ? "" : g.rel.substr(0, d2)))
                    q = g.name;
            }
            char quote = r.coin(1, 8) ? '\'' : '"';
            s += std::string("import ") + (r.coin(1, 10) ? "public " : r.coin(1, 20) ? "weak " : "") + quote + q + quote + ";\n";
        }
        std::vector<Ty> own;
        uint32_t nm = o.small ? r.range(1, 2) : r.range(1, 4);
        if (o.small == false && r.coin(1, 25)) nm = r.range(8, 16);
        for (uint32_t i = 0; i < nm; i++)
        {
            if (r.coin(1, 5))
            {
                std::string n = ident("Enum");
                s += enum_text(n, "");
                f.enums.push_back(n);
                own.push_back({n, false, true});
                continue;
            }
            std::string n = ident("Msg");
            s += message_text(f, n, visible(f, own), p2, 0, "");
            f.messages.push_back(n);
            own.push_back({n, true, false});
        }
        if (r.coin(1, 10)) s += "// the end\n";
        else if (r.coin(1, 16)) s += "/* the end */";
        else if (r.coin(1, 16)) s.pop_back();
        f.text = s;
    }
};
} // namespace
Project gen_project(Run &r, const GenOpts &o)
{
    G g{r, o, {}};
    Project &p = g.p;
    p.cwd      = "/w";
    static const char *ROOTS_[][3] = {{"/w/src", "/w/inc", "/lib/protos"}, {"/w/api", "/w/api2", "/w/ap"}, {"/w/src/v1", "/w/src/v10", "/w/src/v"}, {"/w/proto-x", "/w/proto", "/w/pro"}};
    auto &ROOTS                  = ROOTS_[r.coin(1, 2) ? 0 : r.choose(4)];
    uint32_t nroots = 1 + (r.coin(1, 3) ? 1 : 0) + (r.coin(1, 8) ? 1 : 0);
    for (uint32_t i = 0; i < nroots; i++) p.roots.push_back(ROOTS[i]);
    if (r.coin(1, 8)) p.cwd = p.roots[0];
    for (auto &root : p.roots)
    {
        std::string v = root;
        if (p.cwd == "/w" && root.rfind("/w/", 0) == 0 && r.coin(1, 2)) v = root.substr(3);
        switch (r.choose(3))
        {
        case 0: p.opts.push_back("--proto_path=" + v); break;
        case 1: p.opts.push_back("-I" + v); break;
        default:
            p.opts.push_back("-I");
            p.opts.push_back(v);
        }
    }
    static const char *OUTS[] = {"/w/out", "/w/build/gen/cpp", "/out"};
    p.out                     = OUTS[r.choose(3)];
    p.out_opt                 = p.cwd == "/w" && p.out.rfind("/w/", 0) == 0 && r.coin(1, 2) ? p.out.substr(3) : p.out;
    p.out_split               = r.coin(1, 4);
    static const char *DIRS[] = {"", "net", "net/v1", "model", "a/b/c"};
    static const char *STEMS[] = {"common", "types", "user", "base", "msg", "person.info", "x"};
    uint32_t nf = r.range(uint32_t(o.min_files), uint32_t(o.max_files));
    for (uint32_t i = 0; i < nf; i++)
    {
        ProtoFile f;
        f.root        = p.roots[r.choose(nroots)];
        std::string d = DIRS[r.choose(5)];
        f.stem        = std::string(STEMS[r.choose(7)]) + strf("%u", i);
        f.name        = f.stem + ".proto";
        f.rel         = d.empty() ? f.name : d + "/" + f.name;
        static const char *PK[] = {"p%u", "acme.p%u", "a.b.c%u", "", "shared.pkg"};
        f.package               = strf(PK[r.choose(5)], i);
        for (uint32_t j = 0; j < i; j++)
            if (r.coin(2, 5)) f.imports.push_back(int(j));
        if (f.imports.size() > 1 && r.coin(1, 2)) std::swap(f.imports.front(), f.imports.back());
        g.file_text(f);
        p.files.push_back(f);
    }
    // the files given on the command line: the last one always, others by choice
    std::vector<int> in;
    for (uint32_t i = 0; i < nf; i++)
        if (i + 1 == nf || int(nf - i) <= o.min_inputs || r.coin(1, 2)) in.push_back(int(i));
    if (in.size() > 1 && r.coin(1, 2)) std::swap(in.front(), in.back());
    for (int i : in)
    {
        auto &f = p.files[size_t(i)];
        Input x;
        x.file = i;
        x.arg  = f.path();
        if (f.path().rfind(p.cwd + "/", 0) == 0 && r.coin(1, 2)) x.arg = f.path().substr(p.cwd.size() + 1);
        std::string d = f.rel.find('/') == std::string::npos ? "" : f.rel.substr(0, f.rel.rfind('/') + 1);
        x.h           = p.out + "/" + d + f.stem + ".pb.h";
        x.cc          = p.out + "/" + d + f.stem + ".pb.cc";
        p.inputs.push_back(x);
    }
    // a file of the same name later on the search path must not be picked up
    if (nroots > 1)
        for (uint32_t i = 0; i < nf; i++)
        {
            bool ok = p.files[i].root == p.roots[0];
            for (auto &f : p.files)
                for (int k : f.imports)
                    if (k == int(i) && f.root != p.roots[0]) ok = false;
            if (ok && r.coin(1, 3)) p.other[p.roots[1] + "/" + p.files[i].rel] = "syntax = \"proto3\";\npackage decoy;\nmessage Decoy { int32 d = 1; }\n";
        }
    p.other["/w/README"]             = "unrelated\n";
    p.other[p.out + "/keep.pb.h"]    = "// hand written\n";
    if (r.coin(1, 2)) p.other.erase(p.out + "/keep.pb.h");
    return p;
}
void gen_leftovers(Run &r, const Project &p, SimFS &fs, const Tree *good)
{
    for (auto &i : p.inputs)
        for (auto *f : {&i.h, &i.cc})
        {
            std::string old;
            switch (r.choose(6))
            {
            case 0: continue;
            case 1: old = "// old generated file\n"; break;
            case 2: old = ""; break;
            case 3: old = std::string(r.range(100, 30000), 'Z'); break; // longer than the new one
            case 4:
                if (good && good->count(*f)) old = good->at(*f).substr(0, r.choose(uint32_t(good->at(*f).size()) + 1));
                break;
            case 5:
                if (good && good->count(*f)) old = good->at(*f) + "// tail of an older, longer version\n";
                break;
            }
            fs.mkfile(*f, old);
        }
}
std::string damage(Run &r, const std::string &text, std::string &how)
{
    std::string t = text;
    uint32_t n    = r.range(1, 3);
    static const char *TOK[] = {"{", "}", "[", "]", "\"", "'", "/*", "*/", "//", "[[", "]]", ";", "=", "message ", "enum ", "oneof ", "import ", "option ", "(", ")", "map<", "9999999999999999999999", "0x", "-1", "reserved ", "extensions ", "extend ", "syntax = \"proto2\";", "package ", ".", "1e999", "to max", "service X {}", "required ", "\xff", "\n"};
    for (uint32_t i = 0; i < n; i++)
    {
        uint32_t len = uint32_t(t.size());
        switch (r.choose(17))
        {
        case 9: // an option with a bad value
        case 10:
        {
            static const char *NAME[]  = {"deprecated", "packed", "default", "json_name", "(spb_opt).type", "(spb_opt).max_size", "(spb_opt).max_count", "(spb_opt).enum", "(spb_opt).repeated", "(spb_opt).optional", "(spb_opt).pointer", "(spb_opt).map", "(spb_opt).string", "(spb_opt).bytes", "(nanopb).max_size", "(nanopb).max_length", "(nanopb).max_count", "(spb_fileopt).type", "(spb_msgopt).max_size", "(spb_enumopt).type", "(spb_opt).include", "(spb_opt)", "field.type", "enum.type"};
            static const char *VALUE[] = {"true", "false", "1", "-1", "\"\"", "'int8'", "\"int8:3\"", "\"uint32:99\"", "\"int32:-1\"", "\"int64:\"", "\":3\"", "\"float\"", "99999999999999999999", "1.5", "0x10", "{}", "[]", "{a:1}", "[1,2]", "abc", "A.B.C", "\"$\"", "\"@\"", "\"$$@@\"", "\"std::list<$>\"", "\"no_such\""};
            const char *nm = NAME[r.choose(24)], *va = VALUE[r.choose(26)];
            uint32_t form = r.choose(3);
            std::string o = form == 0 ? strf("//[[ %s = %s ]]\n", nm, va) : form == 1 ? strf(" [%s = %s]", nm, va) : strf("option %s = %s;\n", nm, va);
            // at a place where it can be an option
            std::vector<size_t> at;
            for (size_t k = 0; k < t.size(); k++)
                if (form == 1 ? t[k] == ';' : t[k] == '\n') at.push_back(form == 1 ? k : k + 1);
            if (at.empty()) break;
            t.insert(at[r.choose(uint32_t(at.size()))], o);
            how += "option " + o + " inserted; ";
            break;
        }
        case 0: // truncated file
        {
            uint32_t at = r.choose(len + 1);
            t.resize(at);
            how += strf("truncated to %u; ", at);
            break;
        }
        case 1: // a bit flips
            if (!len) break;
            {
                uint32_t at = r.choose(len), b = r.choose(8);
                t[at] = char(t[at] ^ (1 << b));
                how += strf("bit %u of byte %u flipped; ", b, at);
            }
            break;
        case 2: // lost block reads as zeros
        {
            if (!len) break;
            uint32_t at = r.choose(len), k = r.range(1, 64);
            for (uint32_t j = at; j < len && j < at + k; j++) t[j] = 0;
            how += strf("%u zero bytes at %u; ", k, at);
            break;
        }
        case 3: // a piece is missing
        {
            if (!len) break;
            uint32_t at = r.choose(len), k = r.range(1, 40);
            t.erase(at, k);
            how += strf("%u bytes removed at %u; ", k, at);
            break;
        }
        case 4: // a token appears
        case 5:
        {
            uint32_t at = r.choose(len + 1), k = r.choose(sizeof TOK / sizeof *TOK);
            t.insert(at, TOK[k]);
            how += strf("'%s' inserted at %u; ", TOK[k], at);
            break;
        }
        case 6: // a piece is repeated
        {
            if (!len) break;
            uint32_t at = r.choose(len), k = r.range(1, 200), to = r.choose(len);
            t.insert(to, t.substr(at, k));
            how += strf("%u bytes of %u repeated at %u; ", k, at, to);
            break;
        }
        case 7: // deep nesting
        {
            uint32_t at = r.choose(len + 1), k = r.range(1, 8);
            static const char *DEEP[] = {"message M{", "option a={b:", "option a=[", "option (a).b.", "a.", "((", "/*", "message A{oneof b{int32 c=1;"};
            uint32_t d = r.choose(8), m = k * k * k * 200;
            std::string s;
            for (uint32_t j = 0; j < m; j++) s += DEEP[d];
            t.insert(at, s);
            how += strf("'%s' x %u at %u; ", DEEP[d], m, at);
            break;
        }
        case 11: // tokens are lost, repeated, exchanged or replaced by others of the file
        case 12:
        {
            std::vector<std::pair<size_t, size_t>> tok;
            for (size_t k = 0; k < t.size();)
            {
                size_t e = k + 1;
                if (isspace(uint8_t(t[k])))
                {
                    k++;
                    continue;
                }
                if (isalnum(uint8_t(t[k])) || t[k] == '_')
                    while (e < t.size() && (isalnum(uint8_t(t[e])) || t[e] == '_')) e++;
                tok.push_back({k, e - k});
                k = e;
            }
            if (tok.size() < 2) break;
            auto a = tok[r.choose(uint32_t(tok.size()))], b = tok[r.choose(uint32_t(tok.size()))];
            std::string x = t.substr(a.first, a.second), y = t.substr(b.first, b.second);
            switch (r.choose(4))
            {
            case 0: t.erase(a.first, a.second); how += "'" + x + "' removed; "; break;
            case 1: t.replace(a.first, a.second, x + " " + x); how += "'" + x + "' doubled; "; break;
            case 2: t.replace(a.first, a.second, y); how += "'" + x + "' replaced by '" + y + "'; "; break;
            default:
                if (a.first > b.first) std::swap(a, b), std::swap(x, y);
                if (a.first == b.first) break;
                t.replace(b.first, b.second, x);
                t.replace(a.first, a.second, y);
                how += "'" + x + "' and '" + y + "' exchanged; ";
            }
            break;
        }
        case 13: // what stands between brackets is something else
        case 14:
        {
            static const char *OPEN[] = {"[[", "[", "{", "(", "\"", "/*", "<"}, *CLOSE[] = {"]]", "]", "}", ")", "\"", "*/", ">"};
            static const char *IN[]   = {"", " ", "\n", "   ", "=", ",", ";", "a", "a=", "=1", "a=1", "a=1,", "a=1,b=2", "a=1;b=2", "[[", "]", "{", "\"", ".", "(", "//", "/*", "a.", "(a).", "a b", "1"};
            uint32_t b = r.choose(7), c = r.choose(26);
            std::vector<size_t> at;
            for (size_t k = t.find(OPEN[b]); k != t.npos; k = t.find(OPEN[b], k + 1)) at.push_back(k + strlen(OPEN[b]));
            if (at.empty() || b == 0 && r.choose(2))
            {
                size_t nl = t.find('\n', len ? r.choose(len) : 0);
                std::string x = b == 0 ? strf("//[[%s]]\n", IN[c]) : strf("%s%s%s", OPEN[b], IN[c], CLOSE[b]);
                t.insert(nl == t.npos ? t.size() : nl + 1, x);
                how += "'" + x + "' inserted; ";
                break;
            }
            size_t k = at[r.choose(uint32_t(at.size()))], e = t.find(CLOSE[b], k);
            if (e == t.npos) break;
            t.replace(k, e - k, IN[c]);
            how += strf("between %s and %s: '%s'; ", OPEN[b], CLOSE[b], IN[c]);
            break;
        }
        case 15: // messages that contain each other, and types that do not exist
        case 16:
        {
            uint32_t k = r.range(1, 5), nested = r.choose(3);
            bool p3    = t.find("proto3") != t.npos;
            std::string x = "\n";
            if (nested) x += "message Ring {\n";
            for (uint32_t j = 0; j < k; j++)
            {
                x += strf("message Ring%u {", j);
                uint32_t m = r.range(0, 4);
                for (uint32_t f = 1; f <= m; f++)
                {
                    std::string to = strf("%sRing%u", nested == 2 && r.choose(2) ? "Ring." : "", r.choose(k + (r.choose(12) == 11)));
                    if (nested && r.choose(12) == 11) to = "Ring";
                    static const char *L[] = {"optional %s f%u = %u;", "repeated %s f%u = %u;", "required %s f%u = %u;", "map<string, %s> f%u = %u;", "oneof o%2$u { %1$s f%2$u = %3$u; }", "%s f%u = %u;"};
                    uint32_t l = r.choose(6);
                    if (p3 && l == 2) l = 5;
                    if (!p3 && l == 5) l = 2;
                    x += " " + strf(L[l], to.c_str(), f, f);
                }
                x += " }\n";
            }
            if (nested) x += "}\n";
            t += x;
            how += "messages in a ring appended: " + x + "; ";
            break;
        }
        case 8: // a random byte
        {
            if (!len) break;
            uint32_t at = r.choose(len), b = r.choose(256);
            t[at] = char(b);
            how += strf("byte %u set to %u; ", at, b);
            break;
        }
        }
    }
    return t;
}
} // namespace sim

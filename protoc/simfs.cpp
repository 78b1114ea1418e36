#include "simfs.hpp"
#include <functional>
namespace sim
{
SimFS::SimFS()
{
    root       = std::make_shared<Inode>();
    root->ino  = 1;
    root->dir  = true;
    root->mode = 0755;
}
std::string SimFS::normalize(const std::string &cwd, const std::string &path)
{
    std::string full = !path.empty() && path[0] == '/' ? path : cwd + "/" + path;
    std::vector<std::string> parts;
    size_t i = 0;
    while (i < full.size())
    {
        size_t j = full.find('/', i);
        if (j == std::string::npos) j = full.size();
        std::string p = full.substr(i, j - i);
        i             = j + 1;
        if (p.empty() || p == ".") continue;
        if (p == "..")
        {
            if (!parts.empty()) parts.pop_back();
            continue;
        }
        parts.push_back(p);
    }
    std::string r;
    for (auto &p : parts) r += "/" + p;
    return r.empty() ? "/" : r;
}
// component-wise resolution, so that "missing/../x" fails as it does on a real system
InodeP SimFS::walk_parent(const std::string &cwd, const std::string &path, std::string &name, int &err)
{
    err = 0;
    if (path.empty())
    {
        err = ENOENT;
        return nullptr;
    }
    if (path.size() >= 4096)
    {
        err = ENAMETOOLONG;
        return nullptr;
    }
    std::string full = path[0] == '/' ? path : cwd + "/" + path;
    InodeP cur       = root;
    name.clear();
    std::vector<std::string> parts;
    size_t i = 0;
    while (i < full.size())
    {
        size_t j = full.find('/', i);
        if (j == std::string::npos) j = full.size();
        if (j > i) parts.push_back(full.substr(i, j - i));
        i = j + 1;
    }
    if (parts.empty())
    {
        name = ".";
        return root;
    }
    bool trailing = full.back() == '/';
    for (size_t k = 0; k < parts.size(); k++)
    {
        if (!cur->dir)
        {
            err = ENOTDIR;
            return nullptr;
        }
        if (parts[k].size() > 255)
        {
            err = ENAMETOOLONG;
            return nullptr;
        }
        if (k + 1 == parts.size())
        {
            name = parts[k];
            if (trailing)
            {
                auto it = cur->kids.find(name);
                if (it != cur->kids.end() && !it->second->dir)
                {
                    err = ENOTDIR;
                    return nullptr;
                }
            }
            return cur;
        }
        if (parts[k] == ".") continue;
        if (parts[k] == "..")
        {
            if (auto p = cur->parent.lock()) cur = p;
            continue;
        }
        auto it = cur->kids.find(parts[k]);
        if (it == cur->kids.end())
        {
            err = ENOENT;
            return nullptr;
        }
        cur = it->second;
    }
    return cur;
}
InodeP SimFS::walk(const std::string &cwd, const std::string &path, int &err)
{
    std::string name;
    auto p = walk_parent(cwd, path, name, err);
    if (!p) return nullptr;
    if (name == ".") return p;
    if (name == "..")
    {
        auto q = p->parent.lock();
        return q ? q : p;
    }
    auto it = p->kids.find(name);
    if (it == p->kids.end())
    {
        err = ENOENT;
        return nullptr;
    }
    return it->second;
}
InodeP SimFS::mkdirs(const std::string &path)
{
    std::string n = normalize("/", path);
    InodeP cur    = root;
    size_t i      = 1;
    while (i < n.size())
    {
        size_t j = n.find('/', i);
        if (j == std::string::npos) j = n.size();
        std::string p = n.substr(i, j - i);
        i             = j + 1;
        auto &k       = cur->kids[p];
        if (!k)
        {
            k         = std::make_shared<Inode>();
            k->ino    = next_ino++;
            k->dir    = true;
            k->mode   = 0755;
            k->mtime  = clock;
            k->parent = cur;
        }
        cur = k;
    }
    return cur;
}
InodeP SimFS::mkfile(const std::string &path, const std::string &data)
{
    std::string n = normalize("/", path);
    auto slash    = n.rfind('/');
    InodeP d      = mkdirs(slash ? n.substr(0, slash) : "/");
    auto f        = std::make_shared<Inode>();
    f->ino        = next_ino++;
    f->data       = data;
    f->synced     = data.size();
    f->mtime      = clock;
    auto &k       = d->kids[n.substr(slash + 1)];
    if (k && !k->dir) used -= k->data.size();
    k = f;
    used += data.size();
    return f;
}
bool SimFS::remove(const std::string &path)
{
    int err;
    std::string name;
    auto p = walk_parent("/", path, name, err);
    if (!p) return false;
    auto it = p->kids.find(name);
    if (it == p->kids.end()) return false;
    if (!it->second->dir) used -= it->second->data.size();
    p->kids.erase(it);
    return true;
}
bool SimFS::exists(const std::string &path)
{
    int err;
    return walk("/", path, err) != nullptr;
}
Tree SimFS::tree(bool dirs) const
{
    Tree t;
    std::function<void(const std::string &, const InodeP &)> rec = [&](const std::string &p, const InodeP &n)
    {
        if (n->dir)
        {
            if (dirs) t[p + "/"] = "<dir>";
            for (auto &k : n->kids) rec(p + "/" + k.first, k.second);
        }
        else
            t[p] = n->data;
    };
    rec("", root);
    return t;
}
std::unique_ptr<SimFS> SimFS::clone() const
{
    auto r      = std::make_unique<SimFS>();
    r->next_ino = next_ino;
    r->clock    = clock;
    r->used     = used;
    r->capacity = capacity;
    std::map<const Inode *, InodeP> seen;
    std::function<InodeP(const InodeP &, const InodeP &)> rec = [&](const InodeP &n, const InodeP &parent)
    {
        auto &c = seen[n.get()];
        if (!c)
        {
            c         = std::make_shared<Inode>(*n);
            c->parent = parent;
            if (n->dir)
                for (auto &k : c->kids) k.second = rec(k.second, c);
        }
        return c;
    };
    r->root = rec(root, nullptr);
    return r;
}
} // namespace sim

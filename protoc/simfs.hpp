// In-memory file system and system-call layer of the simulated operating system.
// Lives in the simulator process; the simulated compiler processes reach it through trapped system calls.
#pragma once
#include "engine.hpp"
#include <cerrno>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
namespace sim
{
struct Inode
{
    uint64_t ino = 0;
    bool dir     = false;
    std::string data;             // file
    std::map<std::string, std::shared_ptr<Inode>> kids; // dir
    std::weak_ptr<Inode> parent;  // dir
    uint64_t mtime  = 0;
    uint32_t mode   = 0644;
    uint32_t nlink  = 1;
    size_t synced   = 0;          // bytes known to be durable (prefix)
    bool dirty      = false;      // written since the last sync
    int creator     = -1;         // pid index of the instance that created it
};
using InodeP = std::shared_ptr<Inode>;
struct OpenFile
{
    InodeP ino;
    size_t pos   = 0;
    int flags    = 0;
    int dev      = 0; // 0 file, 1 captured stdout, 2 captured stderr, 3 null
    std::string path;
    size_t dirpos = 0;
};
using OpenFileP = std::shared_ptr<OpenFile>;
struct Proc
{
    int id = 0;
    std::string cwd = "/";
    std::map<int, OpenFileP> fds;
    std::string out, err; // captured stdout, stderr
    uint64_t nsys = 0;
};
// snapshot of every regular file (path -> content) and directory (path -> "<dir>")
using Tree = std::map<std::string, std::string>;

struct SimFS
{
    InodeP root;
    uint64_t next_ino = 2;
    uint64_t clock    = 1000;     // simulated time, seconds since the epoch
    uint64_t used = 0, capacity = ~0ull;
    SimFS();
    InodeP walk(const std::string &cwd, const std::string &path, int &err);
    InodeP walk_parent(const std::string &cwd, const std::string &path, std::string &name, int &err);
    static std::string normalize(const std::string &cwd, const std::string &path);
    InodeP mkfile(const std::string &path, const std::string &data); // creates parents
    InodeP mkdirs(const std::string &path);
    bool remove(const std::string &path);
    bool exists(const std::string &path);
    Tree tree(bool dirs = false) const;
    std::unique_ptr<SimFS> clone() const;
};
} // namespace sim

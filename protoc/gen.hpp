// Generated compiler workloads: proto source trees, option sets, leftovers in the output tree, damaged inputs.
#pragma once
#include "sys.hpp"
namespace sim
{
struct ProtoFile
{
    std::string root, rel; // absolute directory of the tree, path below it
    std::string path() const { return root + "/" + rel; }
    std::string name;      // base name
    std::string stem;
    std::string package;
    std::vector<int> imports;
    std::vector<std::string> messages, enums; // top-level names
    std::string text;
};
struct Input
{
    int file;
    std::string arg;       // as written on the command line
    std::string h, cc;     // where its outputs belong
};
struct Project
{
    std::string cwd;
    std::vector<std::string> roots;       // import paths, absolute
    std::vector<std::string> opts;        // options except the output directory
    std::string out, out_opt;             // absolute output directory, option
    bool out_split = false;               // "--cpp_out DIR" in two words
    std::vector<ProtoFile> files;
    std::vector<Input> inputs;
    std::map<std::string, std::string> other; // unrelated files: path -> content
    std::vector<std::string> args(const std::vector<int> &which = {}) const; // empty: all inputs
    void install(SimFS &fs) const;
    std::string text() const;
};
struct GenOpts
{
    int min_files = 1, max_files = 5;
    int min_inputs = 1;
    bool small = false;
};
Project gen_project(Run &r, const GenOpts &o = {});
// leftovers of earlier runs in the output tree
void gen_leftovers(Run &r, const Project &p, SimFS &fs, const Tree *good = nullptr);
std::string damage(Run &r, const std::string &text, std::string &how);
} // namespace sim

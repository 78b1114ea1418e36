// The reference implementation (libprotobuf, dynamic messages over the same .proto files) as a peer node.
#pragma once
#include "ops.hpp"
namespace sim
{
// decodes `in` and re-encodes it; false with *err set when it refuses
bool gpb_hop(const Ops &o, const std::string &in, bool in_json, bool out_json, bool keep_names, std::string &out, std::string *err);
void gpb_init();
} // namespace sim
namespace sim
{
// the meaning of a protobuf encoding according to the reference implementation, as text; unknown fields are ignored
bool gpb_meaning(const Ops &o, const std::string &wire, std::string &text, std::string *err);
// another legal encoding of one or more encodings of a message sent one after the other
std::string gpb_rewrite(Run &r, const Ops &o, const std::string &wire);
} // namespace sim
namespace google::protobuf
{
class Descriptor;
}
namespace sim
{
const google::protobuf::Descriptor *gpb_descriptor(const Ops &o);
// another JSON document that says the same as `doc` (a document written by the library) according to the JSON mapping
std::string gpb_rewrite_json(Run &r, const Ops &o, const std::string &doc);
bool gpb_json_to_wire(const Ops &o, const std::string &doc, std::string &wire, std::string *err);
} // namespace sim

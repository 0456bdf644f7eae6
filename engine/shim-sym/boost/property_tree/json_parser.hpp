// Symbolic build only: the harness supplies the document.
#pragma once
#include <boost/property_tree/ptree.hpp>
namespace boost { namespace property_tree {
struct json_parser_error : ptree_error { using ptree_error::ptree_error; };
inline void read_json(const std::string &, ptree &t) { if (!sv_document) throw json_parser_error("no document"); t = *sv_document; }
} }

// The interface of Boost's JSON parser for property trees; the check that includes it defines read_json.
#pragma once
#include <boost/property_tree/ptree.hpp>
#include <string>
namespace boost { namespace property_tree { namespace json_parser { class json_parser_error : public ptree_error { public: using ptree_error::ptree_error; }; void read_json(const std::string &path, ptree &tree); } using json_parser::read_json; using json_parser::json_parser_error; } }

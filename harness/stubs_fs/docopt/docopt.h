// Stand-in for the argument parser: the harness supplies the parsed arguments.
#pragma once
#include <map>
#include <ostream>
#include <string>
#include <vector>
namespace docopt {
struct value { int k = 0; bool b = false; long l = 0; explicit operator bool() const; bool asBool() const; bool isBool() const { return true; } long asLong() const; const std::vector<std::string> &asStringList() const; };
inline std::ostream &operator<<(std::ostream &os, const value &) { return os; }
std::map<std::string, value> docopt(const std::string &doc, const std::vector<std::string> &argv, bool help = true, const std::string &version = {}, bool options_first = false);
}

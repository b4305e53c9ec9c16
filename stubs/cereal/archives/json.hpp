#pragma once
#include <cereal/cereal.hpp>
namespace cereal {
class JSONOutputArchive : public OutputArchive<JSONOutputArchive, 1> { public: JSONOutputArchive(std::ostream &); };
class JSONInputArchive : public InputArchive<JSONInputArchive, 1> { public: JSONInputArchive(std::istream &); };
}

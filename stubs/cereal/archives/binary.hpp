#pragma once
#include <cereal/cereal.hpp>
namespace cereal {
class BinaryOutputArchive : public OutputArchive<BinaryOutputArchive, 1> { public: BinaryOutputArchive(std::ostream &); void saveBinary(const void*, std::streamsize); };
class BinaryInputArchive : public InputArchive<BinaryInputArchive, 1> { public: BinaryInputArchive(std::istream &); void loadBinary(void*, std::streamsize); };
}

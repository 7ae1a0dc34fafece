#pragma once
// Interface of tinyply (declarations only) for parsing.
#include <vector>
#include <string>
#include <cstdint>
#include <cstddef>
#include <istream>
#include <ostream>
#include <memory>
namespace tinyply {
enum class Type : uint8_t { INVALID, INT8, UINT8, INT16, UINT16, INT32, UINT32, FLOAT32, FLOAT64 };
struct PlyFile {
  PlyFile(); ~PlyFile();
  void write(std::ostream & os, bool isBinary);
  std::vector<std::string> & get_comments();
  void add_properties_to_element(const std::string & elementKey, const std::vector<std::string> propertyKeys, const Type type, const size_t count, const uint8_t * data, const Type listType, const size_t listCount);
};
}

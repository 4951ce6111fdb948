// Harness-side view of a file written through the stand-in HDF5 API
#ifndef FAKEH5_H
#define FAKEH5_H
#include <map>
#include <string>
#include <vector>
#include <cstdint>
namespace fakeh5
{
struct Type
{
  int cls = 0; // 0 native, 1 compound, 2 array, 3 string
  int native = 0;
  size_t size = 0;
  struct Member { std::string name; size_t offset; size_t type; };
  std::vector<Member> members;          // compound (types index into sub)
  std::vector<Type> sub;                // compound member types, or the array base
  std::vector<unsigned long long> dims; // array
  bool equal( const Type& o ) const;
};
struct Dataset
{
  Type type;
  std::vector<unsigned long long> dims;
  std::vector<char> data;      // dense, row major
  std::vector<char> written;   // per element
  std::vector<std::string> strs; // string datasets
  size_t count() const { size_t n = 1; for( auto d : dims ) n *= size_t( d ); return n; }
};
struct Tree { std::map<std::string, Dataset> sets; std::map<std::string, int> groups; };
bool load( const std::string& file, Tree& out );
// Values of a (possibly compound) dataset element's member, as doubles
std::vector<double> member( const Dataset& d, size_t elem, const std::string& name );
std::vector<double> values( const Dataset& d );
}
#endif

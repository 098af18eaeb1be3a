#pragma once
// stand-in for the parts of mockturtle and fiction the technology mapper hands its gate library to
#include <cstdint>
#include <sstream>
#include <string>
#include <vector>
extern "C" void verif_genlib(const void* stream);
extern "C" bool verif_mapping_error();
namespace mockturtle
{
struct aig_network {};
struct xag_network {};
struct mig_network {};
struct gate {};
struct emap_params { uint32_t tag{}; };
struct emap_stats { bool mapping_error{false}; uint32_t tag{}; void report() const {} };
struct genlib_reader { explicit genlib_reader(std::vector<gate>&) {} };
template <unsigned N> struct tech_library { explicit tech_library(const std::vector<gate>&) {} };
struct mapped { unsigned inputs{}; uint32_t id{}; uint32_t ps{}; };
template <class Ntk> inline constexpr bool is_network_type_v = true;
template <class Ntk, unsigned N> mapped emap(const Ntk& n, const tech_library<N>&, const emap_params& ps, emap_stats* st)
{
    st->mapping_error = verif_mapping_error();
    st->tag           = 77;
    return mapped{N, n.id, ps.tag};
}
}  // namespace mockturtle
namespace lorina
{
enum class return_code { success, parse_error };
inline return_code read_genlib(const std::stringstream& s, const mockturtle::genlib_reader&) { verif_genlib(&s); return return_code::success; }
}  // namespace lorina
namespace fiction
{
struct tec_nt { unsigned inputs{0}; uint32_t id{0}; uint32_t ps{0}; bool names{false}; };
inline constexpr const char* aig_name = "AIG";
inline constexpr const char* xag_name = "XAG";
inline constexpr const char* mig_name = "MIG";
template <class T, class N> T convert_network(const N& n) { return T{n.inputs, n.id, n.ps, false}; }
template <class A, class B> void restore_names(const A&, B& b) { b.names = true; }
}  // namespace fiction

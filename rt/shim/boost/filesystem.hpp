// Stand-in for <boost/filesystem.hpp>: the same model of paths as for <filesystem>.
#ifndef VF_SHIM_BOOST_FILESYSTEM
#define VF_SHIM_BOOST_FILESYSTEM
#include "../filesystem"
namespace boost { namespace filesystem { using namespace std::filesystem; } }
#endif

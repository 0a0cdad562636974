// Stand-in for the absent mpark::variant submodule: the same interface on std::variant (C++17).
#ifndef VERIF_SHIM_MPARK_VARIANT
#define VERIF_SHIM_MPARK_VARIANT
#include <variant>
namespace mpark
{
    using namespace std;
}
#endif
